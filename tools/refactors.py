"""refactors.py [ID...]: behaviour-preserving edits of /repo on which every check has to stay quiet (development only).

Each is applied to a scratch copy, the stable tests are run on it, then the checks that concern the file; anything but exit 0 is printed."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
R = 'IO/BinaryReader.py'; W = 'IO/BinaryWriter.py'; UB = 'UIntBase.py'; U1 = 'UInt160.py'; U2 = 'UInt256.py'; F = 'Fixed8.py'; B = 'BigInteger.py'
M = 'Cryptography/MerkleTree.py'; C = 'Cryptography/Crypto.py'; H = 'Cryptography/Helper.py'; K = 'KeyPair.py'; E = 'Cryptography/ECCurve.py'; L = 'bin/cli.py'
CHECKS = {R: 'C01 C02 C03 C04 C05 C06 C07', W: 'C01 C02 C03 C04 C06 C07', UB: 'C07 C08 C09 C10 C05', U1: 'C07 C08', U2: 'C07 C08', F: 'C11 C12 C01',
          B: 'C13 C14', M: 'C15 C16', C: 'C22 C17 C18 C21 C28', H: 'C27 C17 C18 C19 C20 C21 C28', K: 'C19 C21 C20 C28', E: 'C24 C25 C23 C26 C05 C21', L: 'C28 C18', 'Utils.py': 'C18'}
S = []


def s(id, f, *edits):
    S.append((id, f, edits))


# ---- reader
s('r-unpack', R, ("        return struct.unpack(fmt, self.stream.read(length))[0]", "        data = self.stream.read(length)\n        (value,) = struct.unpack(fmt, data)\n        return value"))
s('r-varint-eq', R, ("        if fb is 0:\n            return fb\n        value = 0\n        if hex(fb) == '0xfd':\n            value = self.ReadUInt16()\n        elif hex(fb) == '0xfe':\n            value = self.ReadUInt32()\n        elif hex(fb) == '0xff':\n            value = self.ReadUInt64()\n        else:\n            value = fb\n",
  "        if fb == 0:\n            return 0\n        if fb == 0xfd:\n            value = self.ReadUInt16()\n        elif fb == 0xfe:\n            value = self.ReadUInt32()\n        elif fb == 0xff:\n            value = self.ReadUInt64()\n        else:\n            value = fb\n"))
s('r-varint-table', R, ("        value = 0\n        if hex(fb) == '0xfd':\n            value = self.ReadUInt16()\n        elif hex(fb) == '0xfe':\n            value = self.ReadUInt32()\n        elif hex(fb) == '0xff':\n            value = self.ReadUInt64()\n        else:\n            value = fb\n",
  "        wide = {0xfd: self.ReadUInt16, 0xfe: self.ReadUInt32, 0xff: self.ReadUInt64}\n        value = wide[fb]() if fb in wide else fb\n"))
s('r-varint-helper', R, ("    def ReadVarInt(self, max=0xFFFFFFFFFFFFFFFF):", "    def _read_wide(self, prefix):\n        if prefix == 0xfd:\n            return self.ReadUInt16()\n        if prefix == 0xfe:\n            return self.ReadUInt32()\n        if prefix == 0xff:\n            return self.ReadUInt64()\n        return prefix\n\n    def ReadVarInt(self, max=0xFFFFFFFFFFFFFFFF):"),
  ("        value = 0\n        if hex(fb) == '0xfd':\n            value = self.ReadUInt16()\n        elif hex(fb) == '0xfe':\n            value = self.ReadUInt32()\n        elif hex(fb) == '0xff':\n            value = self.ReadUInt64()\n        else:\n            value = fb\n", "        value = self._read_wide(fb)\n"))
s('r-fixed-loop', R, ("        return self.ReadBytes(length).rstrip(b'\\x00')", "        data = self.ReadBytes(length)\n        end = len(data)\n        while end > 0 and data[end - 1] == 0:\n            end -= 1\n        return data[:end]"))
s('r-fixed-endswith', R, ("        return self.ReadBytes(length).rstrip(b'\\x00')", "        data = self.ReadBytes(length)\n        while data.endswith(b'\\x00'):\n            data = data[:-1]\n        return data"))
s('r-array-rsplit', R, ("        module = '.'.join(class_name.split('.')[:-1])\n        klassname = class_name.split('.')[-1]\n", "        module, klassname = class_name.rsplit('.', 1)\n"), ("            for i in range(0, length):\n                item = klass()", "            while len(items) < length:\n                item = klass()"))
s('r-array-helper', R, ("    def ReadUInt256(self):", "    def _read_item(self, klass):\n        item = klass()\n        item.Deserialize(self)\n        return item\n\n    def ReadUInt256(self):"), ("                item = klass()\n                item.Deserialize(self)\n                #                logger.info(\"deserialized item %s %s \" % ( i, item))\n                items.append(item)", "                items.append(self._read_item(klass))"))
s('r-hashes-comp', R, ("        items = []\n        for i in range(0, len):\n            ba = bytearray(self.ReadBytes(32))\n            ba.reverse()\n            items.append(ba.hex())\n        return items", "        return [self.ReadBytes(32)[::-1].hex() for i in range(len)]"))
s('r-hashes-while', R, ("        items = []\n        for i in range(0, len):\n            ba = bytearray(self.ReadBytes(32))", "        items = []\n        left = len\n        while left > 0:\n            left -= 1\n            ba = bytearray(self.ReadBytes(32))"))
s('r-safe', R, ("        if len(data) < length:\n            raise ValueError(\"Not enough data available\")\n        else:\n            return data", "        if len(data) >= length:\n            return data\n        raise ValueError(\"Not enough data available\")"))
s('r-byte', R, ("        try:\n            if do_ord:\n                return ord(self.stream.read(1))\n            return self.stream.read(1)\n", "        try:\n            data = self.stream.read(1)\n            return ord(data) if do_ord else data\n"))
s('r-inthelper', R, ("    def ReadBool(self):", "    def _number(self, code, size, endian):\n        return self.unpack(endian + code, size)\n\n    def ReadBool(self):"), ("        return self.unpack('%sh' % endian, 2)", "        return self._number('h', 2, endian)"), ("        return self.unpack('%sI' % endian, 4)", "        return self._number('I', 4, endian)"), ("        return self.unpack('%sq' % endian, 8)", "        return self._number('q', 8, endian)"))
s('r-format', R, ("        return self.unpack('%sH' % endian, 2)", "        return self.unpack('{}H'.format(endian), 2)"), ("        return self.unpack('%sQ' % endian, 8)", "        fmt = f'{endian}Q'\n        return self.unpack(fmt, struct.calcsize(fmt))"))
s('r-uint', R, ("        return UInt256(data=bytearray(self.ReadBytes(32)))", "        data = self.ReadBytes(32)\n        return UInt256(data=data)"), ("        return UInt160(data=bytearray(self.ReadBytes(20)))", "        raw = bytearray()\n        raw.extend(self.ReadBytes(20))\n        return UInt160(raw)"))
# ---- writer
s('w-varint-table', W, ("        elif value <= 0xffff:\n            self.WriteByte(0xfd)\n            return self.WriteUInt16(value, endian)\n\n        elif value <= 0xFFFFFFFF:\n            self.WriteByte(0xfe)\n            return self.WriteUInt32(value, endian)\n\n        else:\n            self.WriteByte(0xff)\n            return self.WriteUInt64(value, endian)",
  "        for limit, prefix, write in ((0xffff, 0xfd, self.WriteUInt16), (0xFFFFFFFF, 0xfe, self.WriteUInt32)):\n            if value <= limit:\n                self.WriteByte(prefix)\n                return write(value, endian)\n\n        self.WriteByte(0xff)\n        return self.WriteUInt64(value, endian)"))
s('w-varint-order', W, ("        if value < 0:\n            raise Exception('%d too small.' % value)\n\n        elif value < 0xfd:", "        if 0 > value:\n            raise Exception('%d too small.' % value)\n\n        if not value >= 0xfd:"))
s('w-fixed-ljust', W, ("        self.WriteBytes(towrite, unhex=False)\n        diff = length - slen\n\n        while diff > 0:\n            self.WriteByte(0)\n            diff -= 1", "        self.WriteBytes(towrite.ljust(length, b'\\x00'), unhex=False)"))
s('w-fixed-for', W, ("        diff = length - slen\n\n        while diff > 0:\n            self.WriteByte(0)\n            diff -= 1", "        for _ in range(length - slen):\n            self.WriteByte(0)"))
s('w-fixed-mul', W, ("        diff = length - slen\n\n        while diff > 0:\n            self.WriteByte(0)\n            diff -= 1", "        padding = b'\\x00' * (length - slen)\n        self.WriteBytes(padding, unhex=False)"))
s('w-hashes-helper', W, ("    def Write2000256List(self, arr):", "    def _write_reversed(self, item):\n        self.WriteBytes(binascii.unhexlify(item)[::-1], unhex=False)\n\n    def Write2000256List(self, arr):"),
  ("        for item in arr:\n            ba = bytearray(binascii.unhexlify(item))\n            ba.reverse()\n            self.WriteBytes(ba, unhex=False)\n\n    def WriteHashes", "        for item in arr:\n            self._write_reversed(item)\n\n    def WriteHashes"),
  ("            ba = bytearray(binascii.unhexlify(item))\n            ba.reverse()\n            #            logger.info(\"WRITING HASH %s \" % ba)\n            self.WriteBytes(ba, unhex=False)", "            self._write_reversed(item)"))
s('w-array-index', W, ("            self.WriteVarInt(len(array))\n            for item in array:\n                item.Serialize(self)", "            count = len(array)\n            self.WriteVarInt(count)\n            for i in range(count):\n                array[i].Serialize(self)"))
s('w-array-early', W, ("        if array is None:\n            self.WriteByte(0)\n        else:\n            self.WriteVarInt(len(array))\n            for item in array:\n                item.Serialize(self)", "        if array is None:\n            self.WriteByte(0)\n            return\n        self.WriteVarInt(len(array))\n        i = 0\n        while i < len(array):\n            array[i].Serialize(self)\n            i += 1"))
s('w-byte', W, ("        if type(value) is bytes:\n            self.stream.write(value)\n        elif type(value) is str:\n            self.stream.write(value.encode('utf-8'))\n        elif isinstance(value, int):\n            self.stream.write(bytes([value]))", "        if isinstance(value, int):\n            value = bytes((value,))\n        elif type(value) is str:\n            value = value.encode('utf-8')\n        elif type(value) is not bytes:\n            return\n        self.stream.write(value)"))
s('w-pack', W, ("        return self.WriteBytes(struct.pack(fmt, data), unhex=False)", "        packed = struct.pack(fmt, data)\n        return self.stream.write(packed)"))
s('w-bytes', W, ("        if unhex:\n            try:\n                value = binascii.unhexlify(value)\n            except binascii.Error:\n                pass\n        return self.stream.write(value)", "        if not unhex:\n            return self.stream.write(value)\n        try:\n            raw = binascii.unhexlify(value)\n        except binascii.Error:\n            raw = value\n        return self.stream.write(raw)"))
s('w-uint', W, ("        if type(value) is UInt160:\n            value.Serialize(self)\n        else:\n            raise Exception(\"value must be UInt160 instance \")", "        if type(value) is not UInt160:\n            raise Exception(\"value must be UInt160 instance \")\n        value.Serialize(self)"))
s('w-varstring', W, ("        if type(value) is str:\n            value = value.encode(encoding)\n\n        length = len(value)\n        self.WriteVarInt(length)\n        self.WriteBytes(value, unhex=False)", "        data = value.encode(encoding) if type(value) is str else value\n        self.WriteVarBytes(data)"))
# ---- hashes
s('u-cmp-int', UB, ("        length = len(x)\n\n        for i in range(length - 1, -1, -1):\n            if x[i] > y[i]:\n                return 1\n            if x[i] < y[i]:\n                return -1\n\n        return 0", "        a = int.from_bytes(x, 'little')\n        b = int.from_bytes(y, 'little')\n        return (a > b) - (a < b)"))
s('u-cmp-rev', UB, ("        length = len(x)\n\n        for i in range(length - 1, -1, -1):\n            if x[i] > y[i]:\n                return 1\n            if x[i] < y[i]:\n                return -1\n\n        return 0", "        a = bytes(x)[::-1]\n        b = bytes(y)[::-1]\n        if a == b:\n            return 0\n        return 1 if a > b else -1"))
s('u-cmp-zip', UB, ("        length = len(x)\n\n        for i in range(length - 1, -1, -1):\n            if x[i] > y[i]:\n                return 1\n            if x[i] < y[i]:\n                return -1\n\n        return 0", "        for a, b in zip(reversed(x), reversed(y)):\n            if a != b:\n                return 1 if a > b else -1\n\n        return 0"))
s('u-cmp-while', UB, ("        length = len(x)\n\n        for i in range(length - 1, -1, -1):\n            if x[i] > y[i]:\n                return 1\n            if x[i] < y[i]:\n                return -1\n\n        return 0", "        i = len(x) - 1\n        while i >= 0:\n            if x[i] != y[i]:\n                return 1 if x[i] > y[i] else -1\n            i -= 1\n        return 0"))
s('u-cmp-first', UB, ("        length = len(x)\n\n        for i in range(length - 1, -1, -1):\n            if x[i] > y[i]:\n                return 1\n            if x[i] < y[i]:\n                return -1\n\n        return 0", "        result = 0\n        for i in range(len(x)):\n            if x[i] > y[i]:\n                result = 1\n            elif x[i] < y[i]:\n                result = -1\n        return result"))
s('u-eq', UB, ("        if other is None:\n            return False\n\n        if not isinstance(other, UIntBase):\n            return False\n\n        if other is self:\n            return True\n\n        if self.Data == other.Data:\n            return True\n\n        return False", "        return isinstance(other, UIntBase) and self.Data == other.Data"))
s('u-str', UB, ("        db = bytearray(self.Data)\n        db.reverse()\n        return db.hex()", "        return bytes(reversed(self.Data)).hex()"), ("        return '0x%s' % self.ToString()", "        return '0x' + self.ToString()"), ("        return bytes(self.ToString(), encoding='utf-8')", "        return self.ToString().encode('utf-8')"))
s('u-str2', UB, ("        db = bytearray(self.Data)\n        db.reverse()\n        return db.hex()", "        return binascii.hexlify(self.Data[::-1]).decode('ascii')"))
s('u-hash', UB, ("        slice_length = 4 if len(self.Data) >= 4 else len(self.Data)\n        return int.from_bytes(self.Data[:slice_length], 'little')", "        code = 0\n        for i in range(min(4, len(self.Data))):\n            code |= self.Data[i] << (8 * i)\n        return code"))
s('u-init', UB, ("        if data is None:\n            self.Data = bytearray(num_bytes)\n\n        else:\n            if len(data) != num_bytes:", "        if data is None:\n            data = bytearray(num_bytes)\n\n        if True:\n            if len(data) != num_bytes:"))
s('u-ops', UB, ("        return self.CompareTo(other) <= 0", "        return not self.CompareTo(other) > 0"), ("        return self.CompareTo(other) >= 0", "        return not self < other"))
s('u-cmp-helper', UB, ("    def CompareTo(self, other):", "    @staticmethod\n    def _check(a, b):\n        if len(a.Data) != len(b.Data):\n            raise Exception('Cannot compare %s with length %s to %s with length %s' % (type(a).__name__, len(a.Data), type(b).__name__, len(b.Data)))\n\n    def CompareTo(self, other):"), ("        if len(x) != len(y):\n            raise Exception('Cannot compare %s with length %s to %s with length %s' % (type(self).__name__, len(x), type(other).__name__, len(y)))\n", "        UIntBase._check(self, other)\n"))
s('u-parse', U1, ("        if value[0:2] == '0x':\n            value = value[2:]\n        if not len(value) == 40:", "        value = value[2:] if value.startswith('0x') else value\n        if len(value) != 40:"), ("        reversed_data = bytearray.fromhex(value)\n        reversed_data.reverse()\n        return UInt160(data=reversed_data)", "        return UInt160(data=bytearray.fromhex(value)[::-1])"))
s('u-parse2', U2, ("        reversed_data = bytearray.fromhex(value)\n        reversed_data.reverse()\n        return UInt256(data=reversed_data)", "        data = bytes.fromhex(value)\n        return UInt256(bytearray(reversed(data)))"))
# ---- fixed
s('f-ops', F, ("        return Fixed8(-1 * self.value)", "        return Fixed8(-self.value)"), ("        return Fixed8(self.value // Fixed8.D * Fixed8.D)", "        return Fixed8(self.value - self.value % Fixed8.D)"), ("        return self.__add__(other)", "        return self + other"))
s('f-ceil', F, ("        return Fixed8(-(-self.value // Fixed8.D) * Fixed8.D)", "        whole, rest = divmod(self.value, Fixed8.D)\n        if rest:\n            whole += 1\n        return Fixed8(whole * Fixed8.D)"))
s('f-div', F, ("        quotient = abs(self.value) // abs(other.value)\n        return Fixed8(quotient if (self.value < 0) == (other.value < 0) else -quotient)", "        a, b = self.value, other.value\n        q = a // b\n        if q < 0 and q * b != a:\n            q += 1\n        return Fixed8(q)"))
s('f-toint', F, ("        whole = abs(self.value) // Fixed8.D\n        return whole if self.value >= 0 else -whole", "        if self.value < 0:\n            return -(-self.value // Fixed8.D)\n        return self.value // Fixed8.D"))
s('f-json', F, ("        if strval[-2:] == '.0':\n            return strval[:-2]\n        return strval", "        return strval[:-2] if strval.endswith('.0') else strval"))
s('f-try', F, ("        if val is not None:\n\n            if require_positive and val < 0:\n                return None\n\n            return Fixed8(int(val * Fixed8.D))\n\n        return None", "        if val is None:\n            return None\n\n        if val < 0 and require_positive:\n            return None\n\n        return Fixed8(int(val * Fixed8.D))"))
s('f-dec', F, ("        out = int(number * Fixed8.D)\n        return Fixed8(out)", "        units = number * Fixed8.D\n        return Fixed8(int(units))"))
s('f-cmp', F, ("        return self.value >= other.value", "        return not self.value < other.value"), ("        return self.value > other.value", "        return other.value < self.value"))
# ---- big
s('b-sign', B, ("        if self > 0:\n            return 1\n        elif self == 0:\n            return 0\n        return -1", "        return (self > 0) - (self < 0)"))
s('b-bytes', B, ("        try:\n            return self.to_bytes((self.bit_length() + 7) // 8, byteorder='little', signed=signed)\n        except OverflowError:\n            return self.to_bytes(1 + ((self.bit_length() + 7) // 8), byteorder='little', signed=signed)", "        size = (self.bit_length() + 7) // 8\n        if signed and self.bit_length() % 8 == 0:\n            size += 1\n        return self.to_bytes(size, byteorder='little', signed=signed)"))
s('b-helper', B, ("    def Equals(self, other):", "    def _width(self):\n        return (self.bit_length() + 7) // 8\n\n    def Equals(self, other):"), ("            return self.to_bytes(1 + ((self.bit_length() + 7) // 8), byteorder='little', signed=True)\n", "            return self.to_bytes(1 + self._width(), 'little', signed=True)\n"))
s('b-ops', B, ("        return BigInteger(super(BigInteger, self).__add__(*args, **kwargs))", "        return BigInteger(super().__add__(*args, **kwargs))"), ("    def __sub__(self, *args, **kwargs):  # real signature unknown\n        return BigInteger(super(BigInteger, self).__sub__(*args, **kwargs))", "    def __sub__(self, other):\n        result = super(BigInteger, self).__sub__(other)\n        return BigInteger(result)"), ("    def __truediv__(self, *args, **kwargs):  # real signature unknown\n        return BigInteger(super(BigInteger, self).__floordiv__(*args, **kwargs))", "    def __truediv__(self, *args, **kwargs):\n        return self.__floordiv__(*args, **kwargs)"))
# ---- merkle
s('m-iter', M, ("        return MerkleTree.__Build(parents)", "        if len(parents) > 1:\n            return MerkleTree.__Build(parents)\n        return parents[0]"), ("        num_parents = int((len(leaves) + 1) / 2)", "        num_parents = (len(leaves) + 1) // 2"))
s('m-loop', M, ("        if len(leaves) == 1:\n            return leaves[0]\n\n        num_parents = int((len(leaves) + 1) / 2)\n        parents = [MerkleTreeNode() for i in range(0, num_parents)]\n\n        for i in range(0, num_parents):\n            node = parents[i]\n            node.LeftChild = leaves[i * 2]\n            leaves[i * 2].Parent = node\n            if (i * 2 + 1 == len(leaves)):\n                node.RightChild = node.LeftChild\n            else:\n                node.RightChild = leaves[i * 2 + 1]\n                leaves[i * 2 + 1].Parent = node\n\n            hasharray = bytearray(node.LeftChild.Hash.ToArray() + node.RightChild.Hash.ToArray())\n            node.Hash = UInt256(data=Crypto.Hash256(hasharray))\n\n        return MerkleTree.__Build(parents)",
  "        while len(leaves) > 1:\n            parents = []\n            for i in range(0, len(leaves), 2):\n                node = MerkleTreeNode()\n                left = leaves[i]\n                right = leaves[i + 1] if i + 1 < len(leaves) else left\n                left.Parent = node\n                right.Parent = node\n                node.LeftChild = left\n                node.RightChild = right\n                node.Hash = UInt256(data=Crypto.Hash256(left.Hash.ToArray() + right.Hash.ToArray()))\n                parents.append(node)\n            leaves = parents\n        return leaves[0]"))
s('m-helper', M, ("    @staticmethod\n    def __Build(leaves):", "    @staticmethod\n    def _join(left, right):\n        node = MerkleTreeNode()\n        node.LeftChild = left\n        node.RightChild = right\n        left.Parent = node\n        right.Parent = node\n        node.Hash = UInt256(data=Crypto.Hash256(bytearray(left.Hash.ToArray() + right.Hash.ToArray())))\n        return node\n\n    @staticmethod\n    def __Build(leaves):"),
  ("        num_parents = int((len(leaves) + 1) / 2)\n        parents = [MerkleTreeNode() for i in range(0, num_parents)]\n\n        for i in range(0, num_parents):\n            node = parents[i]\n            node.LeftChild = leaves[i * 2]\n            leaves[i * 2].Parent = node\n            if (i * 2 + 1 == len(leaves)):\n                node.RightChild = node.LeftChild\n            else:\n                node.RightChild = leaves[i * 2 + 1]\n                leaves[i * 2 + 1].Parent = node\n\n            hasharray = bytearray(node.LeftChild.Hash.ToArray() + node.RightChild.Hash.ToArray())\n            node.Hash = UInt256(data=Crypto.Hash256(hasharray))\n", "        padded = leaves + leaves[-1:] if len(leaves) % 2 else leaves\n        parents = [MerkleTree._join(padded[i], padded[i + 1]) for i in range(0, len(padded), 2)]\n"))
s('m-dfs', M, ("        hashes = set()\n        MerkleTree.__DepthFirstSearch(self.Root, hashes)\n        return list(hashes)", "        hashes = set()\n        stack = [self.Root]\n        while stack:\n            node = stack.pop()\n            if node.LeftChild is None:\n                hashes.add(node.Hash)\n            else:\n                stack.append(node.RightChild)\n                stack.append(node.LeftChild)\n        return list(hashes)"))
s('m-trim', M, ("        while len(flags) < length:\n            flags.append(0)\n", "        flags.extend(bytes(max(0, length - len(flags))))\n"), ("            if not any(flags[index * 2:index * 2 + 2]):\n                node.LeftChild = None\n                node.RightChild = None\n", "            pair = flags[index * 2:index * 2 + 2]\n            if sum(pair) == 0:\n                node.LeftChild = node.RightChild = None\n"))
s('m-depth', M, ("        depth = 1\n        i = self.Root\n        while i.LeftChild is not None:\n            depth = depth + 1\n            i = i.LeftChild\n        self.Depth = depth", "        self.Depth = 1\n        node = self.Root.LeftChild\n        while node is not None:\n            self.Depth += 1\n            node = node.LeftChild"))
s('m-trimnode', M, ("        if depth == 1 or node.LeftChild is None:\n            return\n\n        if depth == 2:", "        if depth <= 1:\n            return\n        if node.LeftChild is None:\n            return\n\n        left, right = node.LeftChild, node.RightChild\n\n        if depth == 2:"), ("            MerkleTree._TrimNode(node.LeftChild, index * 2, depth - 1, flags)\n            if node.RightChild is not node.LeftChild:\n                MerkleTree._TrimNode(node.RightChild, index * 2 + 1, depth - 1, flags)\n\n            if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:", "            MerkleTree._TrimNode(left, index << 1, depth - 1, flags)\n            if right is not left:\n                MerkleTree._TrimNode(right, (index << 1) + 1, depth - 1, flags)\n\n            if left.LeftChild is None and right.RightChild is None:"))
BUILD_LOOP = "        num_parents = int((len(leaves) + 1) / 2)\n        parents = [MerkleTreeNode() for i in range(0, num_parents)]\n\n        for i in range(0, num_parents):\n            node = parents[i]\n            node.LeftChild = leaves[i * 2]\n            leaves[i * 2].Parent = node\n            if (i * 2 + 1 == len(leaves)):\n                node.RightChild = node.LeftChild\n            else:\n                node.RightChild = leaves[i * 2 + 1]\n                leaves[i * 2 + 1].Parent = node\n\n            hasharray = bytearray(node.LeftChild.Hash.ToArray() + node.RightChild.Hash.ToArray())\n            node.Hash = UInt256(data=Crypto.Hash256(hasharray))\n"
s('m-enumerate', M, ("        for i in range(0, num_parents):\n            node = parents[i]\n            node.LeftChild", "        for i, node in enumerate(parents):\n            node.LeftChild"))
s('m-hashhelper', M, ("    @staticmethod\n    def __Build(leaves):", "    @staticmethod\n    def _HashOf(left, right):\n        joined = bytearray()\n        joined.extend(left.Hash.ToArray())\n        joined.extend(right.Hash.ToArray())\n        return UInt256(data=Crypto.Hash256(joined))\n\n    @staticmethod\n    def __Build(leaves):"),
  ("            hasharray = bytearray(node.LeftChild.Hash.ToArray() + node.RightChild.Hash.ToArray())\n            node.Hash = UInt256(data=Crypto.Hash256(hasharray))\n", "            node.Hash = MerkleTree._HashOf(node.LeftChild, node.RightChild)\n"))
s('m-append', M, (BUILD_LOOP, "        parents = []\n        for i in range(0, len(leaves), 2):\n            left = leaves[i]\n            right = leaves[i + 1] if i + 1 < len(leaves) else left\n            node = MerkleTreeNode()\n            node.LeftChild = left\n            node.RightChild = right\n            left.Parent = node\n            right.Parent = node\n            node.Hash = UInt256(data=Crypto.Hash256(bytearray(left.Hash.ToArray() + right.Hash.ToArray())))\n            parents.append(node)\n"))
s('m-while', M, ("        for i in range(0, num_parents):\n            node = parents[i]\n", "        i = -1\n        while i + 1 < num_parents:\n            i += 1\n            node = parents[i]\n"))
s('m-slice', M, (BUILD_LOOP, "        count = len(leaves)\n        parents = []\n        for start in range(0, count, 2):\n            pair = leaves[start:start + 2]\n            node = MerkleTreeNode()\n            node.LeftChild, node.RightChild = pair[0], pair[-1]\n            for child in pair:\n                child.Parent = node\n            node.Hash = UInt256(data=Crypto.Hash256(b''.join(bytes(c.Hash.ToArray()) for c in (pair[0], pair[-1]))))\n            parents.append(node)\n"))
s('m-reorder', M, ("            node.LeftChild = leaves[i * 2]\n            leaves[i * 2].Parent = node\n            if (i * 2 + 1 == len(leaves)):\n                node.RightChild = node.LeftChild\n            else:\n                node.RightChild = leaves[i * 2 + 1]\n                leaves[i * 2 + 1].Parent = node\n", "            left = leaves[2 * i]\n            right = left\n            if 2 * i + 1 < len(leaves):\n                right = leaves[2 * i + 1]\n                right.Parent = node\n            left.Parent = node\n            node.RightChild = right\n            node.LeftChild = left\n"))
s('m-hashdirect', M, ("        if not len(hashes):\n            raise Exception('Hashes must have length')\n        if len(hashes) == 1:\n            return hashes[0]\n\n        tree = MerkleTree(hashes)\n        return tree.Root.Hash", "        count = len(hashes)\n        if count == 0:\n            raise Exception('Hashes must have length')\n        if count > 1:\n            return MerkleTree(hashes).Root.Hash\n        return hashes[0]"))
s('m-leafloop', M, ("        self.Root = MerkleTree.__Build([MerkleTreeNode(hash) for hash in hashes])\n", "        leaves = []\n        for hash in hashes:\n            leaves.append(MerkleTreeNode(hash))\n        self.Root = MerkleTree.__Build(leaves)\n"))
s('m-leafmap', M, ("        self.Root = MerkleTree.__Build([MerkleTreeNode(hash) for hash in hashes])\n", "        self.Root = MerkleTree.__Build(list(map(MerkleTreeNode, hashes)))\n"))
s('m-dfs2', M, ("        if node.LeftChild is None:\n            hashes.add(node.Hash)\n        else:\n            MerkleTree.__DepthFirstSearch(node.LeftChild, hashes)\n            MerkleTree.__DepthFirstSearch(node.RightChild, hashes)", "        if node.LeftChild is not None:\n            for child in (node.LeftChild, node.RightChild):\n                MerkleTree.__DepthFirstSearch(child, hashes)\n            return\n        hashes.add(node.Hash)"))
s('m-trimloop', M, ("        flags = bytearray(flags)\n        length = 1 << self.Depth - 1\n        while len(flags) < length:\n            flags.append(0)\n", "        length = 2 ** (self.Depth - 1)\n        flags = bytearray(flags)\n        for _ in range(len(flags), length):\n            flags.append(0)\n"))
s('m-trimhelper', M, ("    @staticmethod\n    def _TrimNode(", "    @staticmethod\n    def _Cut(node):\n        node.LeftChild = None\n        node.RightChild = None\n\n    @staticmethod\n    def _TrimNode("), ("            if not any(flags[index * 2:index * 2 + 2]):\n                node.LeftChild = None\n                node.RightChild = None\n", "            keep = any(flags[index * 2:index * 2 + 2])\n            if not keep:\n                MerkleTree._Cut(node)\n"), ("            if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:\n                node.LeftChild = None\n                node.RightChild = None", "            if node.LeftChild.IsLeaf() and node.RightChild.IsLeaf():\n                MerkleTree._Cut(node)"))
# ---- crypto / helper
s('h-b256', H, ("    if n > 0:\n        arr = []\n        while n:\n            n, rem = divmod(n, 256)\n            arr.append(rem)\n        b = bytearray(reversed(arr))\n    elif n == 0:\n        b = bytearray(b'\\x00')\n    else:\n        raise ValueError(\"Negative numbers not supported\")\n\n    if minwidth > 0 and len(b) < minwidth:  # zero padding needed?\n        padding = (minwidth - len(b)) * b'\\x00'\n        b = bytearray(padding) + b\n    b.reverse()\n\n    return b", "    if n < 0:\n        raise ValueError(\"Negative numbers not supported\")\n    width = max(1, minwidth, (n.bit_length() + 7) // 8)\n    return bytearray(n.to_bytes(width, 'little'))"))
s('h-b256b', H, ("    if n > 0:\n        arr = []\n        while n:\n            n, rem = divmod(n, 256)\n            arr.append(rem)\n        b = bytearray(reversed(arr))\n    elif n == 0:\n        b = bytearray(b'\\x00')\n    else:\n        raise ValueError(\"Negative numbers not supported\")\n\n    if minwidth > 0 and len(b) < minwidth:  # zero padding needed?\n        padding = (minwidth - len(b)) * b'\\x00'\n        b = bytearray(padding) + b\n    b.reverse()\n\n    return b", "    if n < 0:\n        raise ValueError(\"Negative numbers not supported\")\n    b = bytearray()\n    while n > 0:\n        b.append(n & 0xff)\n        n >>= 8\n    if not b:\n        b.append(0)\n    while len(b) < minwidth:\n        b.append(0)\n    return b"))
s('h-xor-zip', H, ("    res = bytearray()\n    for i in range(len(a)):\n        res.append(a[i] ^ b[i])\n    return bytes(res)", "    return bytes(x ^ y for x, y in zip(a, b))"))
s('h-xor-list', H, ("    res = bytearray()\n    for i in range(len(a)):\n        res.append(a[i] ^ b[i])\n    return bytes(res)", "    res = bytearray(a)\n    for i, v in enumerate(b):\n        res[i] ^= v\n    return bytes(res)"))
s('h-xor-int', H, ("    res = bytearray()\n    for i in range(len(a)):\n        res.append(a[i] ^ b[i])\n    return bytes(res)", "    i = 0\n    res = []\n    while i < len(a):\n        res.append(a[i] ^ b[i])\n        i += 1\n    return bytes(res)"))
s('h-hash', H, ("    return hashlib.sha256(hashlib.sha256(s).digest()).digest()", "    first = hashlib.sha256(s).digest()\n    second = hashlib.sha256()\n    second.update(first)\n    return second.digest()"), ("    intermed = hashlib.sha256(string).digest()\n    return hashlib.new('ripemd160', intermed).hexdigest()", "    return bin_hash160Bytes(string).hex()"), ("    d1 = hashlib.sha256(ba)\n    d2 = hashlib.sha256()\n    d1.hexdigest()\n    d2.update(d1.digest())\n    return d2.hexdigest()", "    return bin_dbl_sha256(ba).hex()"))
s('h-addr', H, ("    sb = bytearray([ADDRESS_VERSION]) + scripthash\n    c256 = bin_dbl_sha256(sb)[0:4]\n    outb = sb + bytearray(c256)\n    return base58.b58encode(bytes(outb)).decode(\"utf-8\")", "    payload = bytes([ADDRESS_VERSION]) + bytes(scripthash)\n    return base58.b58encode_check(payload).decode(\"utf-8\")"))
s('h-redeem', H, ("    return binascii.unhexlify(b'21' + pubkey + b'ac')", "    script = b''.join([b'21', pubkey, b'ac'])\n    return binascii.unhexlify(script)"))
s('c-script', C, ("        if len(data) > 1 and unhex:\n            data = binascii.unhexlify(data)\n        return UInt160(data=binascii.unhexlify(bytes(Crypto.Hash160(data), encoding='utf-8')))", "        raw = binascii.unhexlify(data) if unhex and len(data) > 1 else data\n        return UInt160(data=Crypto.Hash160Bytes(raw))"))
s('c-sign', C, ("        rb = bytearray(r.to_bytes(32, 'big'))\n        sb = bytearray(s.to_bytes(32, 'big'))\n\n        sig = rb + sb\n\n        return sig", "        sig = bytearray()\n        for part in (r, s):\n            sig += part.to_bytes(32, 'big')\n        return sig"))
s('c-sign2', C, ("        hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()\n\n        v, r, s = bitcoin.ecdsa_raw_sign(hash, private_key)", "        raw = binascii.unhexlify(message)\n        digest = binascii.hexlify(hashlib.sha256(raw).digest()).decode()\n\n        _, r, s = bitcoin.ecdsa_raw_sign(digest, private_key)"))
s('c-verify', C, ("            pubkey_x = public_key.x.value.to_bytes(32, 'big')\n            pubkey_y = public_key.y.value.to_bytes(32, 'big')\n\n            public_key = pubkey_x + pubkey_y", "            public_key = b''.join(v.value.to_bytes(32, 'big') for v in (public_key.x, public_key.y))"), ("            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n            return res\n        except Exception as e:\n            pass\n\n        return False", "            return vk.verify(signature, message, hashfunc=hashlib.sha256)\n        except Exception:\n            return False"))
s('c-default', C, ("        if not Crypto._Instance:\n            Crypto._Instance = CryptoInstance()\n        return Crypto._Instance", "        instance = Crypto._Instance\n        if instance is None:\n            instance = CryptoInstance()\n            Crypto._Instance = instance\n        return instance"))
# ---- keys
s('k-nep2-helper', K, ("    def GetAddress(self):", "    @staticmethod\n    def _address_hash(address):\n        return Crypto.Hash256(address.encode(\"utf-8\"))[:4]\n\n    def GetAddress(self):"), ("        kp_new_address = kp_new.GetAddress()\n        kp_new_address_hash_tmp = hashlib.sha256(kp_new_address.encode(\"utf-8\")).digest()\n        kp_new_address_hash_tmp2 = hashlib.sha256(kp_new_address_hash_tmp).digest()\n        kp_new_address_hash = kp_new_address_hash_tmp2[:4]\n        if (kp_new_address_hash != address_hash):", "        if KeyPair._address_hash(kp_new.GetAddress()) != address_hash:"), ("        address_hash_tmp = hashlib.sha256(self.GetAddress().encode(\"utf-8\")).digest()\n        address_hash_tmp2 = hashlib.sha256(address_hash_tmp).digest()\n        address_hash = address_hash_tmp2[:4]\n", "        address_hash = self._address_hash(self.GetAddress())\n"))
s('k-export', K, ("        data = bytearray(38)\n        data[0] = 0x80\n        data[1:33] = self.PrivateKey[0:32]\n        data[33] = 0x01\n\n        checksum = Crypto.Default().Hash256(data[0:34])\n        data[34:38] = checksum[0:4]\n        b58 = base58.b58encode(bytes(data))", "        data = b'\\x80' + bytes(self.PrivateKey) + b'\\x01'\n        data += Crypto.Hash256(data)[:4]\n        b58 = base58.b58encode(data)"))
s('k-wif', K, ("        if wif is None or len(wif) is not 52:", "        if len(wif) != 52:"), ("        if length is not 38 or data[0] is not 0x80 or data[33] is not 0x01:", "        if not (length == 38 and data[0] == 0x80 and data[33] == 0x01):"), ("        checksum = Crypto.Hash256(data[0:34])[0:4]\n\n        if checksum != data[34:]:\n            raise ValueError(\"Invalid WIF Checksum!\")\n\n        return data[1:33]", "        payload, checksum = data[:-4], data[-4:]\n        if Crypto.Hash256(payload)[:4] == checksum:\n            return payload[1:33]\n        raise ValueError(\"Invalid WIF Checksum!\")"))
s('k-init', K, ("        if length != 32 and length != 96 and length != 104:", "        if length not in (32, 96, 104):"), ("        elif length == 96 or length == 104:\n            skip = length - 96\n            pubkey_encoded_not_compressed = bytearray(b'\\x04') + bytearray(priv_key[skip:skip + 64])", "        else:\n            pubkey_encoded_not_compressed = b'\\x04' + bytes(priv_key[-96:-32])"), ("            pubx = pubkey_points[0]\n            puby = pubkey_points[1]\n            edcsa = ECDSA.secp256r1()\n            self.PublicKey = edcsa.Curve.point(pubx, puby)", "            pubx, puby = pubkey_points\n            self.PublicKey = ECDSA.secp256r1().Curve.point(pubx, puby)"))
s('k-addr', K, ("        script = b'21' + self.PublicKey.encode_point(True) + b'ac'\n        script_hash = Crypto.ToScriptHash(script)\n        address = Crypto.ToAddress(script_hash)\n        return address", "        encoded = self.PublicKey.encode_point(True)\n        return Crypto.ToAddress(Crypto.ToScriptHash(b''.join((b'21', encoded, b'ac'))))"))
s('k-scrypt', K, ("        assembled = bytearray()\n        assembled.extend(NEP_HEADER)\n        assembled.extend(NEP_FLAG)\n        assembled.extend(address_hash)\n        assembled.extend(encrypted)\n", "        assembled = NEP_HEADER + NEP_FLAG + address_hash + encrypted\n"), ("        encrypted = decoded_key[-32:]\n", "        encrypted = decoded_key[ADDRESS_HASH_OFFSET + ADDRESS_HASH_SIZE:]\n"))
s('k-derive', K, ("    @staticmethod\n    def PrivateKeyFromNEP2", "    @staticmethod\n    def _derive(passphrase, salt):\n        password = unicodedata.normalize('NFC', passphrase).encode('utf-8')\n        derived = scrypt.hash(password, salt, N=SCRYPT_ITERATIONS, r=SCRYPT_BLOCKSIZE, p=SCRYPT_PARALLEL_FACTOR, buflen=SCRYPT_KEY_LEN_BYTES)\n        return derived[:32], derived[32:]\n\n    @staticmethod\n    def PrivateKeyFromNEP2"),
  ("        encrypted = decoded_key[-32:]\n\n        pwd_normalized = bytes(unicodedata.normalize('NFC', passphrase), 'utf-8')\n        derived = scrypt.hash(pwd_normalized, address_hash,\n                              N=SCRYPT_ITERATIONS,\n                              r=SCRYPT_BLOCKSIZE,\n                              p=SCRYPT_PARALLEL_FACTOR,\n                              buflen=SCRYPT_KEY_LEN_BYTES)\n\n        derived1 = derived[:32]\n        derived2 = derived[32:]\n", "        encrypted = decoded_key[-32:]\n\n        derived1, derived2 = KeyPair._derive(passphrase, address_hash)\n"))
# ---- curves
s('e-gcd-iter', E, ("    if (a == 0):\n        return (b, 0, 1)\n    d1, x1, y1 = GCD(b % a, a)\n    return (d1, y1 - (b // a) * x1, x1)", "    if a == 0:\n        return (b, 0, 1)\n    q, r = divmod(b, a)\n    d, x, y = GCD(r, a)\n    return (d, y - q * x, x)"))
s('e-gcd-loop', E, ("    if (a == 0):\n        return (b, 0, 1)\n    d1, x1, y1 = GCD(b % a, a)\n    return (d1, y1 - (b // a) * x1, x1)", "    x0, x1, y0, y1 = 0, 1, 1, 0\n    while a != 0:\n        q, a, b = b // a, b % a, a\n        y0, y1 = y1, y0 - q * y1\n        x0, x1 = x1, x0 - q * x1\n    return b, x0, y0"))
s('e-mul-while', E, ("        while scalar != 0:\n            bit = scalar % 2\n            if bit:\n                accumulator += shifter\n            shifter += shifter\n            scalar //= 2\n", "        while scalar > 0:\n            if scalar & 1:\n                accumulator = accumulator + shifter\n            shifter = shifter + shifter\n            scalar >>= 1\n"))
s('e-mul-divmod', E, ("        while scalar != 0:\n            bit = scalar % 2\n            if bit:\n                accumulator += shifter\n            shifter += shifter\n            scalar //= 2\n", "        while scalar:\n            scalar, bit = divmod(scalar, 2)\n            if bit == 1:\n                accumulator = self.add(accumulator, shifter)\n            shifter = self.add(shifter, shifter)\n"))
s('e-mul-msb', E, ("        shifter = pt\n\n        while scalar != 0:\n            bit = scalar % 2\n            if bit:\n                accumulator += shifter\n            shifter += shifter\n            scalar //= 2\n", "        for bit in bin(scalar)[2:]:\n            accumulator += accumulator\n            if bit == '1':\n                accumulator += pt\n"))
s('e-add', E, ("        lft = 0\n        # calculate the slope of the intersection line\n        if p == q:\n            if p.y == 0:\n                return self.zero()\n            lft = (3 * p.x ** 2 + self.a) / (2 * p.y)\n        elif p.x == q.x:\n            return self.zero()\n        else:\n            lft = (p.y - q.y) / (p.x - q.x)\n", "        if p.x == q.x:\n            if p.y != q.y or p.y == 0:\n                return self.zero()\n            lft = (p.x * p.x * 3 + self.a) / (p.y + p.y)\n        else:\n            lft = (q.y - p.y) / (q.x - p.x)\n"))
s('e-add2', E, ("        x = lft ** 2 - (p.x + q.x)\n        y = lft * (p.x - x) - p.y\n", "        x = lft * lft - p.x - q.x\n        y = lft * (q.x - x) - q.y\n"))
s('e-add-helper', E, ("    def add(self, p, q):", "    def _tangent(self, p):\n        return (3 * p.x ** 2 + self.a) / (2 * p.y)\n\n    def add(self, p, q):"), ("            lft = (3 * p.x ** 2 + self.a) / (2 * p.y)", "            lft = self._tangent(p)"))
s('e-sqrt', E, ("        sw = self.p % 8\n        if sw == 3 or sw == 7:", "        sw = self.p % 8\n        if sw in (3, 7):"), ("        if res.value % 2 == flag:\n            return res\n        else:\n            return -res", "        if res.value % 2 != flag:\n            res = -res\n        return res"))
s('e-sqrtcq', E, ("        z = modpow(val, (CQ >> 2) + 1, CQ)\n        zsquare = (z * z) % CQ\n        if (z * z) % CQ == val:\n            return z\n        else:\n            return None", "        z = pow(val, (CQ + 1) // 4, CQ)\n        return z if z * z % CQ == val else None"))
s('e-decomp', E, ("        bit0 = 0\n        if ysquare_root % 2 is not 0:\n            bit0 = 1\n\n        if bit0 != flag:\n            beta = (cq - ysquare_root) % cq\n        else:\n            beta = ysquare_root\n\n        return self.point(x, beta)", "        if ysquare_root % 2 != flag:\n            ysquare_root = -ysquare_root % cq\n\n        return self.point(x, ysquare_root)"))
s('e-decode', E, ("            data = bytearray(ba[1:])\n            data.reverse()\n            data.append(0)\n            X1 = int.from_bytes(data, 'little')\n", "            X1 = int.from_bytes(ba[1:], 'big')\n"), ("            x_data = bytearray(ba[1:1 + expected_byte_len])\n            x_data.reverse()\n            x_data.append(0)\n\n            y_data = bytearray(ba[1 + expected_byte_len:])\n            y_data.reverse()\n            y_data.append(0)\n\n            x = int.from_bytes(x_data, 'little')\n            y = int.from_bytes(y_data, 'little')\n", "            x = int.from_bytes(ba[1:1 + expected_byte_len], 'big')\n            y = int.from_bytes(ba[1 + expected_byte_len:], 'big')\n"))
s('e-decode-helper', E, ("    def decode_from_reader(self, reader):", "    @staticmethod\n    def _big(data):\n        value = 0\n        for b in data:\n            value = (value << 8) | b\n        return value\n\n    def decode_from_reader(self, reader):"), ("            data = bytearray(ba[1:])\n            data.reverse()\n            data.append(0)\n            X1 = int.from_bytes(data, 'little')\n", "            X1 = self._big(ba[1:])\n"))
s('e-encode', E, ("            xbytes = bytearray(self.x.value.to_bytes(32, endian))\n            xbytes.reverse()\n\n            if compressed:\n                byteone = b'\\x03'\n                if self.y.value % 2 == 0:\n                    byteone = b'\\x02'\n\n                data = bytearray(byteone) + xbytes\n                return binascii.hexlify(data)\n", "            xbytes = self.x.value.to_bytes(32, endian)[::-1]\n\n            if compressed:\n                prefix = bytes([2 + (self.y.value & 1)])\n                return binascii.hexlify(prefix + xbytes)\n"))
s('e-lt', E, ("            if other == self:\n                return False\n            elif self.x.value < other.x.value:\n                return True\n            elif self.x.value > other.x.value:\n                return False\n\n            return self.y.value < other.y.value", "            if other == self:\n                return False\n            return (self.x.value, self.y.value) < (other.x.value, other.y.value)"), ("            if other == self:\n                return True\n            return self.__lt__(other)", "            return other == self or self < other"))
s('e-gt', E, ("            elif self.x.value > other.x.value:\n                return True\n            elif self.x.value < other.x.value:\n                return False\n\n            return self.y.value > other.y.value", "            if self.x.value != other.x.value:\n                return self.x.value > other.x.value\n\n            return self.y.value > other.y.value"))
s('e-field', E, ("        return samefield(lhs, rhs) and self.value((lhs.value - rhs.value) % self.p)", "        if not samefield(lhs, rhs):\n            return False\n        difference = lhs.value - rhs.value\n        return self.value(difference % self.p)"), ("        return self.value((self.p - val.value) % self.p)", "        return self.value(-val.value % self.p)"), ("    if a.field != b.field:\n        return False\n    return True", "    return a.field == b.field"))
s('e-pow', E, ("        return self.value(pow(int(lhs.value), int(self.integer(rhs)), self.p))", "        exponent = int(self.integer(rhs))\n        return self.value(modpow(int(lhs.value), exponent, self.p))"), ("        return (lhs.value - rhs.value) % self.p == 0", "        return lhs.value % self.p == rhs.value % self.p"))
s('e-sign', E, ("        m = self.GFn.value(message)\n        x = self.GFn.value(privkey)\n        k = self.GFn.value(secret)\n\n        R = self.G * k\n\n        r = self.GFn.value(R.x)\n        s = (m + x * r) / k\n\n        return (r, s)", "        k = self.GFn.value(secret)\n        r = self.GFn.value((self.G * k).x)\n        s = (self.GFn.value(privkey) * r + self.GFn.value(message)) / k\n        return r, s"))
s('e-verify', E, ("        R = self.G * (m / s) + pubkey * (r / s)\n", "        u1 = m / s\n        u2 = r / s\n        R = self.ec.add(self.ec.mul(self.G, u1), self.ec.mul(pubkey, u2))\n"))
s('e-frombytes', E, ("        elif length == 64 or length == 72:\n            skip = length - 64\n            out = bytearray(b'\\x04') + bytearray(pubkey[skip:])\n", "        elif length in (64, 72):\n            out = b'\\x04' + bytes(pubkey[-64:])\n"))
s('e-modinv', E, ("    (gcd, c, d) = GCD(x, m)\n    return c", "    return GCD(x, m)[1]"))
# ---- cli
s('l-cli', L, ("    # Make sure the checksum is correct\n    if data[-4:] != hashlib.sha256(hashlib.sha256(data[:-4]).digest()).digest()[:4]:\n        raise ConversionError(\"Invalid address: invalid checksum\")\n\n    # Return only the scripthash bytes\n    return data[1:-4]", "    payload, checksum = data[:21], data[21:]\n    if Crypto.Hash256(payload)[:4] != checksum:\n        raise ConversionError(\"Invalid address: invalid checksum\")\n    return payload[1:]"))
s('l-main', L, ("            print(\"Scripthash big endian:  0x{}\".format(scripthash[::-1].hex()))\n            print(\"Scripthash little endian: {}\".format(scripthash.hex(), scripthash))", "            reverse = bytes(reversed(scripthash))\n            print(\"Scripthash big endian:  0x\" + reverse.hex())\n            print(\"Scripthash little endian: %s\" % scripthash.hex())"))
s('l-wallet', L, ("    private_key = bytes(Random.get_random_bytes(32))\n    keypair = KeyPair(priv_key=private_key)\n    return {\n        \"private_key\": keypair.Export(),\n        \"address\": keypair.GetAddress()\n    }", "    keypair = KeyPair(bytes(Random.get_random_bytes(32)))\n    wallet = {}\n    wallet[\"private_key\"] = keypair.Export()\n    wallet[\"address\"] = keypair.GetAddress()\n    return wallet"))
# ---- second batch
s('x-struct', R, ("class BinaryReader(object):", "_UINT16 = {'<': struct.Struct('<H'), '>': struct.Struct('>H')}\n\n\nclass BinaryReader(object):"), ("        return self.unpack('%sH' % endian, 2)", "        codec = _UINT16.get(endian)\n        if codec is None:\n            return self.unpack('%sH' % endian, 2)\n        return codec.unpack(self.stream.read(codec.size))[0]"))
s('x-unpack2', R, ("        return struct.unpack(fmt, self.stream.read(length))[0]", "        raw = self.stream.read(length)\n        values = struct.unpack(fmt, raw)\n        return values[0]"), ("        value = self.stream.read(length)\n        return value", "        return self.stream.read(length)"))
s('x-varint-and', R, ("        fb = self.ReadByte()\n        if fb is 0:\n            return fb\n        value = 0\n        if hex(fb) == '0xfd':\n            value = self.ReadUInt16()\n        elif hex(fb) == '0xfe':\n            value = self.ReadUInt32()\n        elif hex(fb) == '0xff':\n            value = self.ReadUInt64()\n        else:\n            value = fb\n\n        if value > max:\n            raise Exception(\"Invalid format\")\n\n        return int(value)",
  "        prefix = self.ReadByte()\n        if prefix < 0xfd:\n            value = prefix\n        else:\n            readers = [self.ReadUInt16, self.ReadUInt32, self.ReadUInt64]\n            value = readers[prefix - 0xfd]()\n\n        if prefix != 0 and value > max:\n            raise Exception(\"Invalid format\")\n\n        return value"))
s('x-varint-fromhex', R, ("        value = 0\n        if hex(fb) == '0xfd':\n            value = self.ReadUInt16()\n        elif hex(fb) == '0xfe':\n            value = self.ReadUInt32()\n        elif hex(fb) == '0xff':\n            value = self.ReadUInt64()\n        else:\n            value = fb\n", "        size = {0xfd: ('<H', 2), 0xfe: ('<I', 4), 0xff: ('<Q', 8)}.get(fb)\n        value = fb\n        if size is not None:\n            value = self.unpack(*size)\n"))
s('x-varstring', R, ("        length = self.ReadVarInt(max)\n        return self.unpack(str(length) + 's', length)", "        length = self.ReadVarInt(max)\n        fmt = '{}s'.format(length)\n        data = self.ReadBytes(length)\n        return struct.unpack(fmt, data)[0]"))
s('x-fixed-split', R, ("        return self.ReadBytes(length).rstrip(b'\\x00')", "        raw = self.ReadBytes(length)\n        trimmed = raw.rstrip(b'\\x00')\n        return trimmed"))
s('x-array-gen', R, ("        module = '.'.join(class_name.split('.')[:-1])\n        klassname = class_name.split('.')[-1]\n        klass = getattr(importlib.import_module(module), klassname)", "        *path, klassname = class_name.split('.')\n        klass = getattr(importlib.import_module('.'.join(path)), klassname)"))
s('x-hashes-map', R, ("        len = self.ReadVarInt()\n        items = []\n        for i in range(0, len):\n            ba = bytearray(self.ReadBytes(32))\n            ba.reverse()\n            items.append(ba.hex())\n        return items", "        count = self.ReadVarInt()\n        raw = [self.ReadBytes(32) for _ in range(count)]\n        return [bytes(reversed(h)).hex() for h in raw]"))
s('x-hashes-hexlify', R, ("            ba = bytearray(self.ReadBytes(32))\n            ba.reverse()\n            items.append(ba.hex())", "            items.append(binascii.hexlify(self.ReadBytes(32)[::-1]).decode('ascii'))"))
s('x-fixed8', R, ("        fval = self.ReadInt64()\n        return Fixed8(fval)", "        return Fixed8(self.ReadInt64())"), ("        return UInt256(data=bytearray(self.ReadBytes(32)))", "        width = 32\n        return UInt256(data=bytearray(self.ReadBytes(width)))"))
s('x-w-helper', W, ("    def WriteVarBytes(self, value, endian=\"<\"):", "    def _write_prefixed(self, data, endian=\"<\"):\n        self.WriteVarInt(len(data), endian)\n        return self.WriteBytes(data, unhex=False)\n\n    def WriteVarBytes(self, value, endian=\"<\"):"), ("        length = len(value)\n        self.WriteVarInt(length, endian)\n\n        return self.WriteBytes(value, unhex=False)\n", "        return self._write_prefixed(value, endian)\n"), ("        if type(value) is str:\n            value = value.encode(encoding)\n\n        length = len(value)\n        self.WriteVarInt(length)\n        self.WriteBytes(value, unhex=False)", "        if isinstance(value, str):\n            value = value.encode(encoding)\n        self._write_prefixed(value)"))
s('x-w-fixedslice', W, ("        self.WriteBytes(towrite, unhex=False)\n        diff = length - slen\n\n        while diff > 0:\n            self.WriteByte(0)\n            diff -= 1", "        buf = bytearray(length)\n        buf[:slen] = towrite\n        self.WriteBytes(bytes(buf), unhex=False)"))
s('x-w-fixedfmt', W, ("        self.WriteBytes(towrite, unhex=False)\n        diff = length - slen\n\n        while diff > 0:\n            self.WriteByte(0)\n            diff -= 1", "        self.WriteBytes(towrite + bytes(length - slen), unhex=False)"))
s('x-w-fixedstruct', W, ("        self.WriteBytes(towrite, unhex=False)\n        diff = length - slen\n\n        while diff > 0:\n            self.WriteByte(0)\n            diff -= 1", "        self.pack('%ds' % length, towrite)"))
s('x-w-enum', W, ("        length = len(arr)\n        self.WriteVarInt(length)\n        for item in arr:\n            ba = bytearray(binascii.unhexlify(item))\n            ba.reverse()\n", "        self.WriteVarInt(len(arr))\n        for index, item in enumerate(arr):\n            ba = bytearray(reversed(binascii.unhexlify(item)))\n"))
s('x-w-join', W, ("        length = len(arr)\n        self.WriteVarInt(length)\n        for item in arr:\n            ba = bytearray(binascii.unhexlify(item))\n            ba.reverse()\n            #            logger.info(\"WRITING HASH %s \" % ba)\n            self.WriteBytes(ba, unhex=False)", "        self.WriteVarInt(len(arr))\n        body = b''.join(binascii.unhexlify(item)[::-1] for item in arr)\n        self.WriteBytes(body, unhex=False)"))
s('x-w-array-or', W, ("        if array is None:\n            self.WriteByte(0)\n        else:\n            self.WriteVarInt(len(array))\n            for item in array:\n                item.Serialize(self)", "        items = [] if array is None else array\n        self.WriteVarInt(len(items))\n        for item in items:\n            item.Serialize(self)"))
s('x-w-varint-early', W, ("            self.WriteByte(0xfd)\n            return self.WriteUInt16(value, endian)", "            self.WriteByte(b'\\xfd')\n            return self.pack(endian + 'H', value)"), ("            self.WriteByte(0xff)\n            return self.WriteUInt64(value, endian)", "            self.stream.write(bytes([0xff]))\n            return self.WriteUInt64(value, endian)"))
s('x-u-eq', UB, ("        if other is None:\n            return False\n\n        if not isinstance(other, UIntBase):\n            return False\n\n        if other is self:\n            return True\n\n        if self.Data == other.Data:\n            return True\n\n        return False", "        return isinstance(other, UIntBase) and (other is self or self.Data == other.Data)"))
s('x-u-eqbytes', UB, ("        if other is self:\n            return True\n\n        if self.Data == other.Data:\n            return True\n\n        return False", "        mine, theirs = bytes(self.Data), bytes(other.Data)\n        return mine == theirs"))
s('x-u-lt', UB, ("        return self.CompareTo(other) < 0\n", "        return self.CompareTo(other) == -1\n"), ("        return self.CompareTo(other) <= 0", "        return not self.CompareTo(other) > 0"), ("        return self.CompareTo(other) >= 0", "        return not self < other"))
s('x-u-init', UB, ("        if data is None:\n            self.Data = bytearray(num_bytes)\n\n        else:\n            if len(data) != num_bytes:\n                raise Exception(\"Invalid UInt: data length {} != specified num_bytes {}\".format(len(data), num_bytes))\n\n            if type(data) is bytes:\n                self.Data = bytearray(data)\n            elif type(data) is bytearray:\n                self.Data = data\n            else:\n                raise Exception(\"Invalid format\")\n", "        self.Data = self._checked(num_bytes, data)\n"),
  ("    @property\n    def Size(self):", "    @staticmethod\n    def _checked(num_bytes, data):\n        if data is None:\n            return bytearray(num_bytes)\n        if len(data) != num_bytes:\n            raise Exception(f\"Invalid UInt: data length {len(data)} != specified num_bytes {num_bytes}\")\n        if type(data) not in (bytes, bytearray):\n            raise Exception(\"Invalid format\")\n        return bytearray(data) if type(data) is bytes else data\n\n    @property\n    def Size(self):"))
s('x-u-str', UB, ("        db = bytearray(self.Data)\n        db.reverse()\n        return db.hex()", "        return ''.join('%02x' % b for b in reversed(self.Data))"))
s('x-u-str3', UB, ("        db = bytearray(self.Data)\n        db.reverse()\n        return db.hex()", "        return binascii.hexlify(bytes(self.Data[::-1])).decode('utf-8')"), ("        return '0x%s' % self.ToString()", "        return '0x' + self.ToString()"))
s('x-u-str4', UB, ("        db = bytearray(self.Data)\n        db.reverse()\n        return db.hex()", "        out = []\n        for b in self.Data:\n            out.insert(0, format(b, '02x'))\n        return ''.join(out)"))
s('x-u-hash', UB, ("        slice_length = 4 if len(self.Data) >= 4 else len(self.Data)\n        return int.from_bytes(self.Data[:slice_length], 'little')", "        value = 0\n        for i, b in enumerate(self.Data[:4]):\n            value |= b << (8 * i)\n        return value"))
s('x-u-hash2', UB, ("        slice_length = 4 if len(self.Data) >= 4 else len(self.Data)\n        return int.from_bytes(self.Data[:slice_length], 'little')", "        return int.from_bytes(self.Data[:min(4, len(self.Data))], byteorder='little')"))
s('x-u-deser', UB, ("        self.Data = reader.SafeReadBytes(self.Size)\n", "        size = self.Size\n        data = reader.SafeReadBytes(size)\n        self.Data = data\n"))
s('x-f-try', F, ("        val = None\n        try:\n            val = float(value)\n            val = Fraction(str(value))\n        except Exception as e:\n            pass\n        if not val:\n            try:\n                val = int(value)\n            except Exception as e:\n                pass\n        if val is not None:\n\n            if require_positive and val < 0:\n                return None\n\n            return Fixed8(int(val * Fixed8.D))\n\n        return None", "        val = Fixed8._number(value)\n        if val is None or (require_positive and val < 0):\n            return None\n        return Fixed8(int(val * Fixed8.D))\n\n    @staticmethod\n    def _number(value):\n        val = None\n        try:\n            val = float(value)\n            val = Fraction(str(value))\n        except Exception:\n            pass\n        if val:\n            return val\n        try:\n            return int(value)\n        except Exception:\n            return val"))
s('x-f-div', F, ("        quotient = abs(self.value) // abs(other.value)\n        return Fixed8(quotient if (self.value < 0) == (other.value < 0) else -quotient)", "        quotient, remainder = divmod(self.value, other.value)\n        if remainder and (self.value < 0) != (other.value < 0):\n            quotient += 1\n        return Fixed8(quotient)"))
s('x-f-neg', F, ("        return Fixed8(-1 * self.value)", "        return Fixed8(0 - self.value)"), ("        return Fixed8(self.value // Fixed8.D * Fixed8.D)", "        return Fixed8(self.value - self.value % Fixed8.D)"), ("        return Fixed8(-(-self.value // Fixed8.D) * Fixed8.D)", "        rest = self.value % Fixed8.D\n        if rest == 0:\n            return Fixed8(self.value)\n        return Fixed8(self.value + Fixed8.D - rest)"))
s('x-f-toint', F, ("        whole = abs(self.value) // Fixed8.D\n        return whole if self.value >= 0 else -whole", "        if self.value < 0:\n            return -(-self.value // Fixed8.D)\n        return self.value // Fixed8.D"))
s('x-f-json', F, ("        strval = self.ToString()\n        if strval[-2:] == '.0':\n            return strval[:-2]\n        return strval", "        text = self.ToString()\n        return text[:-2] if text.endswith('.0') else text"))
s('x-f-dec', F, ("        if isinstance(number, float):\n            number = Fraction(str(number))\n        out = int(number * Fixed8.D)\n        return Fixed8(out)", "        exact = Fraction(repr(number)) if isinstance(number, float) else number\n        return Fixed8(int(exact * Fixed8.D))"))
s('x-b-bytes', B, ("        try:\n            return self.to_bytes((self.bit_length() + 7) // 8, byteorder='little', signed=signed)\n        except OverflowError:\n            return self.to_bytes(1 + ((self.bit_length() + 7) // 8), byteorder='little', signed=signed)", "        size = (self.bit_length() + 7) // 8\n        if signed and self.bit_length() % 8 == 0:\n            size += 1\n        return self.to_bytes(size, byteorder='little', signed=signed)"))
s('x-h-sha', H, ("    d1 = hashlib.sha256(ba)\n    d2 = hashlib.sha256()\n    d1.hexdigest()\n    d2.update(d1.digest())\n    return d2.hexdigest()", "    return hashlib.sha256(hashlib.sha256(ba).digest()).hexdigest()"), ("    intermed = hashlib.sha256(string).digest()\n    return hashlib.new('ripemd160', intermed).hexdigest()", "    return bin_hash160Bytes(string).hex()"))
s('x-h-sha2', H, ("    return hashlib.sha256(hashlib.sha256(s).digest()).digest()", "    digest = s\n    for _ in range(2):\n        digest = hashlib.sha256(digest).digest()\n    return digest"), ("    intermed = hashlib.sha256(bts).digest()\n    return hashlib.new('ripemd160', intermed).digest()", "    h = hashlib.new('ripemd160')\n    h.update(hashlib.sha256(bts).digest())\n    return h.digest()"))
s('x-h-addr', H, ("    sb = bytearray([ADDRESS_VERSION]) + scripthash\n    c256 = bin_dbl_sha256(sb)[0:4]\n    outb = sb + bytearray(c256)\n    return base58.b58encode(bytes(outb)).decode(\"utf-8\")", "    payload = bytes([ADDRESS_VERSION]) + bytes(scripthash)\n    return base58.b58encode_check(payload).decode(\"utf-8\")"))
s('x-h-b256', H, ("    if n > 0:\n        arr = []\n        while n:\n            n, rem = divmod(n, 256)\n            arr.append(rem)\n        b = bytearray(reversed(arr))\n    elif n == 0:\n        b = bytearray(b'\\x00')\n    else:\n        raise ValueError(\"Negative numbers not supported\")\n\n    if minwidth > 0 and len(b) < minwidth:  # zero padding needed?\n        padding = (minwidth - len(b)) * b'\\x00'\n        b = bytearray(padding) + b\n    b.reverse()\n\n    return b", "    if n < 0:\n        raise ValueError(\"Negative numbers not supported\")\n    width = max(1, (n.bit_length() + 7) // 8, minwidth)\n    return bytearray(n.to_bytes(width, 'little'))"))
s('x-h-b256c', H, ("    if n > 0:\n        arr = []\n        while n:\n            n, rem = divmod(n, 256)\n            arr.append(rem)\n        b = bytearray(reversed(arr))\n    elif n == 0:\n        b = bytearray(b'\\x00')\n    else:\n        raise ValueError(\"Negative numbers not supported\")\n", "    if n < 0:\n        raise ValueError(\"Negative numbers not supported\")\n    b = bytearray()\n    while n > 0:\n        b.insert(0, n & 0xff)\n        n >>= 8\n    if not b:\n        b.append(0)\n"))
s('x-k-wif', K, ("        data = bytearray(38)\n        data[0] = 0x80\n        data[1:33] = self.PrivateKey[0:32]\n        data[33] = 0x01\n\n        checksum = Crypto.Default().Hash256(data[0:34])\n        data[34:38] = checksum[0:4]\n        b58 = base58.b58encode(bytes(data))\n\n        return b58.decode(\"utf-8\")", "        payload = b'\\x80' + bytes(self.PrivateKey[:32]) + b'\\x01'\n        return base58.b58encode_check(payload).decode('utf-8')"))
s('x-k-wif2', K, ("        length = len(data)\n\n        if length is not 38 or data[0] is not 0x80 or data[33] is not 0x01:\n            raise ValueError(\"Invalid format!\")\n\n        checksum = Crypto.Hash256(data[0:34])[0:4]\n\n        if checksum != data[34:]:\n            raise ValueError(\"Invalid WIF Checksum!\")\n\n        return data[1:33]", "        if len(data) != 38:\n            raise ValueError(\"Invalid format!\")\n\n        version, key, marker, checksum = data[0], data[1:33], data[33], data[34:]\n        if (version, marker) != (0x80, 0x01):\n            raise ValueError(\"Invalid format!\")\n        if checksum != Crypto.Hash256(data[:-4])[:4]:\n            raise ValueError(\"Invalid WIF Checksum!\")\n\n        return key"))
s('x-k-wif3', K, ("        if length is not 38 or data[0] is not 0x80 or data[33] is not 0x01:", "        if not (length == 38 and data.startswith(b'\\x80') and data[33:34] == b'\\x01'):"))
s('x-k-nep', K, ("        kp_new_address_hash_tmp = hashlib.sha256(kp_new_address.encode(\"utf-8\")).digest()\n        kp_new_address_hash_tmp2 = hashlib.sha256(kp_new_address_hash_tmp).digest()\n        kp_new_address_hash = kp_new_address_hash_tmp2[:4]\n        if (kp_new_address_hash != address_hash):", "        if Crypto.Hash256(kp_new_address.encode(\"utf-8\"))[:ADDRESS_HASH_SIZE] != address_hash:"), ("        address_hash_tmp = hashlib.sha256(self.GetAddress().encode(\"utf-8\")).digest()\n        address_hash_tmp2 = hashlib.sha256(address_hash_tmp).digest()\n        address_hash = address_hash_tmp2[:4]", "        address_hash = Crypto.Hash256(self.GetAddress().encode(\"utf-8\"))[:4]"), ("        assembled = bytearray()\n        assembled.extend(NEP_HEADER)\n        assembled.extend(NEP_FLAG)\n        assembled.extend(address_hash)\n        assembled.extend(encrypted)\n\n        # Finally, encode with Base58Check\n        encrypted_key_nep2 = base58.b58encode_check(bytes(assembled))", "        assembled = b''.join([bytes(NEP_HEADER), bytes(NEP_FLAG), address_hash, encrypted])\n\n        # Finally, encode with Base58Check\n        encrypted_key_nep2 = base58.b58encode_check(assembled)"))
s('x-k-nep2', K, ("        derived1 = derived[:32]\n        derived2 = derived[32:]\n\n        cipher = AES.new(derived2, AES.MODE_ECB)\n        decrypted = cipher.decrypt(encrypted)\n        private_key = xor_bytes(decrypted, derived1)", "        derived1, derived2 = derived[:32], derived[32:]\n        decrypted = AES.new(derived2, AES.MODE_ECB).decrypt(encrypted)\n        private_key = bytes(a ^ b for a, b in zip(decrypted, derived1))"))
s('x-k-init', K, ("        if length != 32 and length != 96 and length != 104:\n            raise ValueError(\"Invalid private key\")", "        if length not in (32, 96, 104):\n            raise ValueError(\"Invalid private key\")"), ("        elif length == 96 or length == 104:\n            skip = length - 96\n            pubkey_encoded_not_compressed = bytearray(b'\\x04') + bytearray(priv_key[skip:skip + 64])", "        else:\n            pubkey_encoded_not_compressed = b'\\x04' + bytes(priv_key[-96:-32])"), ("            pubkey_points = bitcoin.decode_pubkey(pubkey_encoded_not_compressed, 'bin')\n\n            pubx = pubkey_points[0]\n            puby = pubkey_points[1]\n", "            pubx, puby = bitcoin.decode_pubkey(pubkey_encoded_not_compressed, 'bin')\n"))
s('x-k-addr', K, ("        script = b'21' + self.PublicKey.encode_point(True) + b'ac'\n        script_hash = Crypto.ToScriptHash(script)\n        address = Crypto.ToAddress(script_hash)\n        return address", "        encoded = self.PublicKey.encode_point(True)\n        script = b'\\x21' + binascii.unhexlify(encoded) + b'\\xac'\n        return Crypto.ToAddress(Crypto.ToScriptHash(script, unhex=False))"), ("import hashlib\n", "import binascii\nimport hashlib\n"))
s('x-m-parents', M, ("        num_parents = int((len(leaves) + 1) / 2)\n        parents = [MerkleTreeNode() for i in range(0, num_parents)]\n\n        for i in range(0, num_parents):\n            node = parents[i]\n            node.LeftChild = leaves[i * 2]\n            leaves[i * 2].Parent = node\n            if (i * 2 + 1 == len(leaves)):\n                node.RightChild = node.LeftChild\n            else:\n                node.RightChild = leaves[i * 2 + 1]\n                leaves[i * 2 + 1].Parent = node\n\n            hasharray = bytearray(node.LeftChild.Hash.ToArray() + node.RightChild.Hash.ToArray())\n            node.Hash = UInt256(data=Crypto.Hash256(hasharray))\n", "        parents = []\n        for i in range(0, len(leaves), 2):\n            left = leaves[i]\n            right = leaves[i + 1] if i + 1 < len(leaves) else left\n            node = MerkleTreeNode()\n            node.LeftChild = left\n            node.RightChild = right\n            left.Parent = node\n            right.Parent = node\n            node.Hash = UInt256(data=Crypto.Hash256(bytes(left.Hash.ToArray()) + bytes(right.Hash.ToArray())))\n            parents.append(node)\n"))
s('x-m-min', M, ("            if (i * 2 + 1 == len(leaves)):\n                node.RightChild = node.LeftChild\n            else:\n                node.RightChild = leaves[i * 2 + 1]\n                leaves[i * 2 + 1].Parent = node\n", "            right = leaves[min(i * 2 + 1, len(leaves) - 1)]\n            node.RightChild = right\n            right.Parent = node\n"))
s('x-m-flags', M, ("        flags = bytearray(flags)\n        length = 1 << self.Depth - 1\n        while len(flags) < length:\n            flags.append(0)\n", "        flags = bytearray(flags)\n        missing = 2 ** (self.Depth - 1) - len(flags)\n        if missing > 0:\n            flags += bytearray(missing)\n"))
s('x-m-any', M, ("            if not any(flags[index * 2:index * 2 + 2]):\n", "            left, right = flags[index * 2], flags[index * 2 + 1]\n            if left == 0 and right == 0:\n"))
s('x-m-cut', M, ("            if not any(flags[index * 2:index * 2 + 2]):\n                node.LeftChild = None\n                node.RightChild = None\n", "            if not any(flags[index * 2:index * 2 + 2]):\n                MerkleTree._Cut(node)\n"), ("            if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:\n                node.LeftChild = None\n                node.RightChild = None", "            if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:\n                MerkleTree._Cut(node)\n\n    @staticmethod\n    def _Cut(node):\n        node.LeftChild = node.RightChild = None"))
s('x-c-sig', C, ("        rb = bytearray(r.to_bytes(32, 'big'))\n        sb = bytearray(s.to_bytes(32, 'big'))\n\n        sig = rb + sb\n\n        return sig", "        return bytearray(b''.join(part.to_bytes(32, 'big') for part in (r, s)))"))
s('x-c-ver', C, ("            pubkey_x = public_key.x.value.to_bytes(32, 'big')\n            pubkey_y = public_key.y.value.to_bytes(32, 'big')\n\n            public_key = pubkey_x + pubkey_y\n", "            public_key = Crypto._raw(public_key)\n"), ("    @staticmethod\n    def VerifySignature(", "    @staticmethod\n    def _raw(point):\n        return b''.join(c.value.to_bytes(32, 'big') for c in (point.x, point.y))\n\n    @staticmethod\n    def VerifySignature("), ("                public_key = bitcoin.decompress(public_key)\n                public_key = public_key[1:]", "                public_key = bitcoin.decompress(public_key)[1:]"), ("            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n            return res\n        except Exception as e:\n            pass\n\n        return False", "            return vk.verify(signature, message, hashfunc=hashlib.sha256)\n        except Exception:\n            return False"))
s('x-c-script', C, ("        if len(data) > 1 and unhex:\n            data = binascii.unhexlify(data)\n        return UInt160(data=binascii.unhexlify(bytes(Crypto.Hash160(data), encoding='utf-8')))", "        raw = binascii.unhexlify(data) if unhex and len(data) > 1 else data\n        return UInt160(data=bin_hash160Bytes(raw))"))
s('x-c-script2', C, ("        return UInt160(data=binascii.unhexlify(bytes(Crypto.Hash160(data), encoding='utf-8')))", "        return UInt160(data=bytearray.fromhex(Crypto.Hash160(data)))"))
s('x-l-check', L, ("    data = bytes(base58.b58decode(address))\n\n    # Make sure there is a signature byte, a scripthash and a checksum\n    if len(data) != 25:\n        raise ConversionError(\"Invalid address: wrong length\")\n\n    # Make sure signature byte is correct.\n    if data[0] != 0x17:\n        raise ConversionError(\"Invalid address: wrong signature byte\")\n\n    # Make sure the checksum is correct\n    if data[-4:] != hashlib.sha256(hashlib.sha256(data[:-4]).digest()).digest()[:4]:\n        raise ConversionError(\"Invalid address: invalid checksum\")\n\n    # Return only the scripthash bytes\n    return data[1:-4]", "    data = bytes(base58.b58decode(address))\n    problem = None\n    if len(data) != 25:\n        problem = \"wrong length\"\n    elif data[0] != 0x17:\n        problem = \"wrong signature byte\"\n    elif data[21:] != Crypto.Hash256(data[:21])[:4]:\n        problem = \"invalid checksum\"\n    if problem is not None:\n        raise ConversionError(\"Invalid address: %s\" % problem)\n    return data[1:21]"))
s('x-l-script', L, ("        if scripthash[0:2] != \"0x\":", "        if not scripthash.startswith(\"0x\"):"), ("            scripthash_bytes = binascii.unhexlify(scripthash)\n            scripthash = \"0x%s\" % binascii.hexlify(scripthash_bytes[::-1]).decode(\"utf-8\")\n", "            raw = bytearray(binascii.unhexlify(scripthash))\n            raw.reverse()\n            scripthash = \"0x\" + raw.hex()\n"))
s('x-l-run', L, ("    if args.address_to_scripthash:\n        try:\n            scripthash = address_to_scripthash(args.address_to_scripthash[0])\n", "    if args.address_to_scripthash:\n        try:\n            (address,) = args.address_to_scripthash\n            scripthash = address_to_scripthash(address)\n"), ("            address = scripthash_to_address(args.scripthash_to_address[0])\n            print(address)\n", "            print(scripthash_to_address(args.scripthash_to_address[0]))\n"), ("        w = create_wallet()\n        print(json.dumps(w, indent=2))", "        print(json.dumps(create_wallet(), indent=2))"))
s('x-e-add', E, ("        lft = 0\n        # calculate the slope of the intersection line\n        if p == q:\n            if p.y == 0:\n                return self.zero()\n            lft = (3 * p.x ** 2 + self.a) / (2 * p.y)\n        elif p.x == q.x:\n            return self.zero()\n        else:\n            lft = (p.y - q.y) / (p.x - q.x)\n", "        if p.x == q.x and not (p.y == q.y and p.y != 0):\n            return self.zero()\n\n        # calculate the slope of the intersection line\n        if p == q:\n            num, den = 3 * p.x * p.x + self.a, 2 * p.y\n        else:\n            num, den = q.y - p.y, q.x - p.x\n        lft = num / den\n"))
s('x-e-mul', E, ("        while scalar != 0:\n            bit = scalar % 2\n            if bit:\n                accumulator += shifter\n            shifter += shifter\n            scalar //= 2\n", "        while scalar:\n            if scalar & 1:\n                accumulator = self.add(accumulator, shifter)\n            scalar >>= 1\n            if scalar:\n                shifter = self.add(shifter, shifter)\n"))
s('x-e-cmp', E, ("            if other == self:\n                return False\n            elif self.x.value < other.x.value:\n                return True\n            elif self.x.value > other.x.value:\n                return False\n\n            return self.y.value < other.y.value", "            return self._key() < other._key()\n\n        def _key(self):\n            return self.x.value, self.y.value"), ("            if other == self:\n                return False\n            elif self.x.value > other.x.value:\n                return True\n            elif self.x.value < other.x.value:\n                return False\n\n            return self.y.value > other.y.value", "            return other._key() < self._key()"), ("            if other == self:\n                return True\n            return self.__lt__(other)", "            return not self > other"), ("            if other == self:\n                return True\n            return self.__gt__(other)", "            return not self < other"))
s('x-e-neg', E, ("        return self.value((self.p - val.value) % self.p)", "        return self.zero() - val"))
s('x-e-div', E, ("        return samefield(lhs, rhs) and self.value((lhs.value * rhs.inverse()) % self.p)", "        if not samefield(lhs, rhs):\n            return False\n        inverse = modinv(rhs.value % self.p, self.p)\n        return self.value(lhs.value * inverse % self.p)"))
s('x-e-dec', E, ("            data = bytearray(ba[1:])\n            data.reverse()\n            data.append(0)\n            X1 = int.from_bytes(data, 'little')\n", "            X1 = int(binascii.hexlify(ba[1:]), 16)\n"))
s('x-e-enc', E, ("            xbytes = bytearray(self.x.value.to_bytes(32, endian))\n            xbytes.reverse()\n\n            if compressed:\n                byteone = b'\\x03'\n                if self.y.value % 2 == 0:\n                    byteone = b'\\x02'\n\n                data = bytearray(byteone) + xbytes\n                return binascii.hexlify(data)\n", "            if compressed:\n                order = 'big' if endian == 'little' else 'little'\n                head = b'\\x03' if self.y.value & 1 else b'\\x02'\n                return binascii.hexlify(head + self.x.value.to_bytes(32, order))\n\n            xbytes = bytearray(self.x.value.to_bytes(32, endian))[::-1]\n\n            if False:\n                pass\n"))
s('x-e-enc2', E, ("                byteone = b'\\x03'\n                if self.y.value % 2 == 0:\n                    byteone = b'\\x02'\n\n                data = bytearray(byteone) + xbytes\n                return binascii.hexlify(data)\n", "                data = bytearray([3 if self.y.value % 2 else 2])\n                data.extend(xbytes)\n                return binascii.hexlify(data)\n"))
s('x-e-decomp', E, ("        bit0 = 0\n        if ysquare_root % 2 is not 0:\n            bit0 = 1\n\n        if bit0 != flag:\n            beta = (cq - ysquare_root) % cq\n        else:\n            beta = ysquare_root\n\n        return self.point(x, beta)", "        candidates = [ysquare_root, (cq - ysquare_root) % cq]\n        beta = candidates[0] if ysquare_root & 1 == flag else candidates[1]\n        return self.point(x, beta)"))
s('x-e-frombytes', E, ("        length = len(pubkey)\n\n        if length == 33 or length == 65:\n            return ECDSA.decode_secp256r1(pubkey, unhex=False)\n\n        elif length == 64 or length == 72:\n            skip = length - 64\n            out = bytearray(b'\\x04') + bytearray(pubkey[skip:])\n            return ECDSA.decode_secp256r1(out, unhex=False)\n\n        elif length == 96 or length == 104:\n            skip = length - 96\n\n            out = bytearray(b'\\x04') + bytearray(pubkey[skip:skip + 64])\n\n            return ECDSA.decode_secp256r1(out, unhex=False, check_on_curve=False)", "        length = len(pubkey)\n        if length in (33, 65):\n            return ECDSA.decode_secp256r1(pubkey, unhex=False)\n\n        for width, checked in ((64, True), (96, False)):\n            if length in (width, width + 8):\n                start = length - width\n                out = bytearray([4])\n                out.extend(pubkey[start:start + 64])\n                return ECDSA.decode_secp256r1(out, unhex=False, check_on_curve=checked)"))
s('x-e-gcd', E, ("    (gcd, c, d) = GCD(x, m)\n    return c", "    g, c, _ = GCD(x, m)\n    if g == 1:\n        return c\n    return c"))
s('x-e-oncurve', E, ("        return p.iszero() or p.y ** 2 == p.x ** 3 + self.a * p.x + self.b", "        if p.iszero():\n            return True\n        lhs = p.y * p.y\n        rhs = (p.x * p.x + self.a) * p.x + self.b\n        return lhs == rhs"))
s('x-e-sub', E, ("        return lhs + -rhs", "        opposite = self.neg(rhs)\n        return self.add(lhs, opposite)"))
s('x-e-curves', E, ("        GFp = FiniteField(2 ** 256 - 2 ** 32 - 977)  # This is P from below... aka FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", "        GFp = FiniteField(0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F)"))
# ---- whole families of functions rewritten at once
s('y-fx-helper', F,
  ("    def __add__(self, other):\n        return Fixed8(self.value + other.value)", "    def _binary(self, other, op):\n        return Fixed8(op(self.value, other.value))\n\n    def __add__(self, other):\n        return self._binary(other, lambda a, b: a + b)"),
  ("        return Fixed8(self.value - other.value)", "        return self._binary(other, lambda a, b: a - b)"),
  ("        return Fixed8(self.value * other.value)", "        return self._binary(other, lambda a, b: a * b)"),
  ("        return Fixed8(self.value // other.value)", "        return self._binary(other, lambda a, b: a // b)"),
  ("        return Fixed8(int(self.value % other.value))", "        return self._binary(other, lambda a, b: a % b)"))
s('y-fx-operator', F,
  ("from fractions import Fraction", "import operator\nfrom fractions import Fraction"),
  ("        return Fixed8(self.value + other.value)", "        return Fixed8(operator.add(self.value, other.value))"),
  ("        return Fixed8(self.value - other.value)", "        return Fixed8(operator.sub(self.value, other.value))"),
  ("        return Fixed8(self.value * other.value)", "        return Fixed8(operator.mul(self.value, other.value))"),
  ("        return self.value < other.value", "        return operator.lt(self.value, other.value)"),
  ("        return self.value >= other.value", "        return operator.ge(self.value, other.value)"))
s('y-fx-total', F,
  ("from fractions import Fraction", "from fractions import Fraction\nfrom functools import total_ordering"),
  ("class Fixed8:", "@total_ordering\nclass Fixed8:"),
  ("    def __gt__(self, other):\n        return self.value > other.value\n\n    def __ge__(self, other):\n        return self.value >= other.value\n\n    def __le__(self, other):\n        return self.value <= other.value\n\n", ""))
s('y-fx-inplace', F,
  ("        return self.__add__(other)", "        return self + other"), ("        return self.__sub__(other)", "        return self - other"),
  ("        return self.__mul__(other)", "        return self * other"), ("        return self.__truediv__(other)", "        return self / other"),
  ("        return self.__mod__(other)", "        return self % other"))
s('y-fx-alias', F,
  ("    def __iadd__(self, other):\n        return self.__add__(other)\n", "    __iadd__ = __add__\n"),
  ("    def __isub__(self, other):\n        return self.__sub__(other)\n", "    __isub__ = __sub__\n"),
  ("    def __imul__(self, other):\n        return self.__mul__(other)\n", "    __imul__ = __mul__\n"),
  ("    def __itruediv__(self, other):\n        return self.__truediv__(other)\n", "    __itruediv__ = __truediv__\n"))
s('y-fx-le', F,
  ("        return self.value > other.value", "        return other < self"), ("        return self.value >= other.value", "        return not self < other"),
  ("        return self.value <= other.value", "        return not self > other"))
s('y-fx-getdata', F,
  ("        return Fixed8(self.value + other.value)", "        return Fixed8(self.GetData() + other.GetData())"),
  ("        return self.value == other.value", "        return self.GetData() == other.GetData()"),
  ("        return str(self.value / Fixed8.D)", "        return str(self.GetData() / Fixed8.D)"))
s('y-fx-cls', F,
  ("    @staticmethod\n    def FD():\n        return Fixed8(Fixed8.D)", "    @classmethod\n    def FD(cls):\n        return cls(cls.D)"),
  ("    @staticmethod\n    def Zero():\n        return Fixed8(0)", "    @classmethod\n    def Zero(cls):\n        return cls(0)"),
  ("    @staticmethod\n    def One():\n        return Fixed8(Fixed8.D)", "    @classmethod\n    def One(cls):\n        return cls.FD()"),
  ("    @staticmethod\n    def FromDecimal(number):\n        if isinstance(number, float):\n            number = Fraction(str(number))\n        out = int(number * Fixed8.D)\n        return Fixed8(out)", "    @classmethod\n    def FromDecimal(cls, number):\n        if isinstance(number, float):\n            number = Fraction(str(number))\n        return cls(int(cls.D * number))"))
s('y-fx-pow', F, ("        return Fixed8(pow(self.value, power.value, modulo))", "        if modulo is None:\n            return Fixed8(self.value ** power.value)\n        return Fixed8(pow(self.value, power.value, modulo))"))
s('y-fx-slots', F, ("    def __init__(self, number):\n        self.value = number", "    def __init__(self, number):\n        super().__init__()\n        self.value = number"))
s('y-bi-int', B,
  ("super(BigInteger, self).__abs__(*args, **kwargs)", "int.__abs__(self)"), ("super(BigInteger, self).__add__(*args, **kwargs)", "int.__add__(self, *args)"),
  ("super(BigInteger, self).__mod__(*args, **kwargs)", "int.__mod__(self, *args)"), ("super(BigInteger, self).__mul__(*args, **kwargs)", "int.__mul__(self, *args)"),
  ("super(BigInteger, self).__neg__(*args, **kwargs)", "int.__neg__(self)"), ("super(BigInteger, self).__sub__(*args, **kwargs)", "int.__sub__(self, *args)"))
s('y-bi-other', B,
  ("    def __add__(self, *args, **kwargs):  # real signature unknown\n        return BigInteger(super(BigInteger, self).__add__(*args, **kwargs))", "    def __add__(self, other):\n        return BigInteger(int(self) + int(other))"),
  ("    def __mul__(self, *args, **kwargs):  # real signature unknown\n        return BigInteger(super(BigInteger, self).__mul__(*args, **kwargs))", "    def __mul__(self, other):\n        return BigInteger(int(self) * int(other))"),
  ("    def __rshift__(self, *args, **kwargs):\n        return BigInteger(super(BigInteger, self).__rshift__(*args, **kwargs))", "    def __rshift__(self, bits):\n        return BigInteger(int(self) >> bits)"),
  ("    def __lshift__(self, *args, **kwargs):\n        return BigInteger(super(BigInteger, self).__lshift__(*args, **kwargs))", "    def __lshift__(self, bits):\n        return BigInteger(int(self) << bits)"),
  ("    def __floordiv__(self, *args, **kwargs):\n        return BigInteger(super(BigInteger, self).__floordiv__(*args, **kwargs))", "    def __floordiv__(self, other):\n        quotient, _ = divmod(int(self), int(other))\n        return BigInteger(quotient)"),
  ("    def __neg__(self, *args, **kwargs):  # real signature unknown\n        return BigInteger(super(BigInteger, self).__neg__(*args, **kwargs))", "    def __neg__(self):\n        return BigInteger(0 - int(self))"))
s('y-bi-super0', B,
  ("super(BigInteger, self).__abs__(*args, **kwargs)", "super().__abs__()"), ("super(BigInteger, self).__add__(*args, **kwargs)", "super().__add__(*args)"),
  ("super(BigInteger, self).__floordiv__(*args, **kwargs))\n\n    def __truediv__", "super().__floordiv__(*args, **kwargs))\n\n    def __truediv__"),
  ("super(BigInteger, self).__rshift__(*args, **kwargs)", "super().__rshift__(*args)"))
s('y-bi-truediv', B, ("    def __truediv__(self, *args, **kwargs):  # real signature unknown\n        return BigInteger(super(BigInteger, self).__floordiv__(*args, **kwargs))", "    __truediv__ = __floordiv__"))
s('y-bi-sign', B, ("        if self > 0:\n            return 1\n        elif self == 0:\n            return 0\n        return -1", "        return (self > 0) - (self < 0)"), ("        return super(BigInteger, self).__eq__(other)", "        return self == other"))
s('y-bi-frombytes', B, ("        return BigInteger(int.from_bytes(data, 'little', signed=signed))", "        value = int.from_bytes(bytes(data)[::-1], 'big', signed=signed)\n        return BigInteger(value)"))
s('y-bi-frombytes2', B, ("        return BigInteger(int.from_bytes(data, 'little', signed=signed))", "        value = int.from_bytes(data, 'little')\n        if signed and len(data) > 0 and data[-1] & 0x80:\n            value -= 1 << (8 * len(data))\n        return BigInteger(value)"))
s('y-u-super', U1, ("        super(UInt160, self).__init__(num_bytes=20, data=data)", "        super().__init__(20, data)"))
s('y-u-size', U2, ("class UInt256(UIntBase):\n", "class UInt256(UIntBase):\n    WIDTH = 32\n"), ("        super(UInt256, self).__init__(num_bytes=32, data=data)", "        super().__init__(num_bytes=self.WIDTH, data=data)"), ("        if not len(value) == 64:", "        if len(value) != 2 * UInt256.WIDTH:"))
s('y-u-ops', UB, ("        return self.CompareTo(other) < 0", "        return self.CompareTo(other) == -1"), ("        return self.CompareTo(other) > 0", "        return other.CompareTo(self) < 0 if isinstance(other, UIntBase) else self.CompareTo(other) > 0"), ("        return self.CompareTo(other) <= 0", "        return not self > other"), ("        return self.CompareTo(other) >= 0", "        return not self < other"))
s('y-u-io', UB, ("        writer.WriteBytes(self.Data)", "        data = self.ToArray()\n        writer.WriteBytes(data)"), ("        self.Data = reader.SafeReadBytes(self.Size)\n        self.__hash = self.GetHashCode()", "        width = len(self.Data)\n        data = reader.SafeReadBytes(width)\n        self.Data = data\n        self.__hash = self.GetHashCode()"), ("        return self.Data.hex()", "        return binascii.hexlify(self.Data).decode('utf-8')"), ("        return self.ToString()\n\n    def CompareTo", "        return bytes(self.Data[::-1]).hex()\n\n    def CompareTo"))
s('y-w-codes', W,
  ("    def WriteBool(self, value):", "    def _number(self, code, value, endian):\n        return self.pack(endian + code, value)\n\n    def WriteBool(self, value):"),
  ("        return self.pack('%sh' % endian, value)", "        return self._number('h', value, endian)"), ("        return self.pack('%sH' % endian, value)", "        return self._number('H', value, endian)"),
  ("        return self.pack('%si' % endian, value)", "        return self._number('i', value, endian)"), ("        return self.pack('%sI' % endian, value)", "        return self._number('I', value, endian)"),
  ("        return self.pack('%sq' % endian, value)", "        return self._number('q', value, endian)"), ("        return self.pack('%sQ' % endian, value)", "        return self._number('Q', value, endian)"))
s('y-w-table', W,
  ("class BinaryWriter(object):\n    \"\"\"docstring for BinaryWriter\"\"\"\n", "class BinaryWriter(object):\n    \"\"\"docstring for BinaryWriter\"\"\"\n\n    CODES = {'int16': 'h', 'uint16': 'H', 'int32': 'i', 'uint32': 'I', 'int64': 'q', 'uint64': 'Q'}\n"),
  ("        return self.pack('%sh' % endian, value)", "        return self.pack('{}{}'.format(endian, self.CODES['int16']), value)"), ("        return self.pack('%sH' % endian, value)", "        return self.pack(endian + self.CODES['uint16'], value)"),
  ("        return self.pack('%si' % endian, value)", "        return self.pack('%s%s' % (endian, self.CODES['int32']), value)"), ("        return self.pack('%sQ' % endian, value)", "        return self.pack(f\"{endian}{self.CODES['uint64']}\", value)"))
s('y-w-tobytes', W,
  ("        return self.pack('%sH' % endian, value)", "        if not 0 <= value <= 0xffff:\n            raise ValueError('out of range')\n        data = value.to_bytes(2, 'big' if endian == '>' else 'little')\n        return self.stream.write(data)"),
  ("        return self.pack('%sI' % endian, value)", "        return self.stream.write(value.to_bytes(4, 'big' if endian == '>' else 'little'))"))
s('y-r-more', R,
  ("        return self.unpack(\"%sf\" % endian, 4)", "        return self.unpack(endian + 'f', struct.calcsize('f'))"), ("        return self.unpack(\"%sd\" % endian, 8)", "        (value,) = struct.unpack(endian + 'd', self.stream.read(8))\n        return value"),
  ("        return self.unpack('%sb' % endian)", "        return self.unpack(endian + 'b', 1)"), ("        return self.unpack('%sB' % endian)", "        return self.unpack('B')"),
  ("        return self.unpack('%si' % endian, 4)", "        return int.from_bytes(self._exactly(4), 'little' if endian != '>' else 'big', signed=True)\n\n    def _exactly(self, length):\n        data = self.stream.read(length)\n        if len(data) != length:\n            raise struct.error('unpack requires a buffer of %d bytes' % length)\n        return data"))
s('y-r-lists', R,
  ("        items = []\n        for i in range(0, 2000):\n            data = self.ReadBytes(64)\n            ba = bytearray(binascii.unhexlify(data))\n            ba.reverse()\n            items.append(ba.hex().encode('utf-8'))\n        return items", "        return [binascii.hexlify(binascii.unhexlify(self.ReadBytes(64))[::-1]) for _ in range(2000)]"),
  ("        fval = self.ReadInt64()\n        return Fixed8(fval)", "        return Fixed8(self.ReadInt64())"))
s('y-r-varbytes', R,
  ("        length = self.ReadVarInt(max)\n        return self.ReadBytes(length)", "        return self.ReadBytes(self.ReadVarInt(max=max))"),
  ("        length = self.ReadUInt8()\n        return self.unpack(str(length) + 's', length)", "        return self._text(self.ReadUInt8())\n\n    def _text(self, length):\n        return self.unpack('%ds' % length, length)"),
  ("        length = self.ReadVarInt(max)\n        return self.unpack(str(length) + 's', length)", "        return self._text(self.ReadVarInt(max))"))
s('y-c-default', C,
  ("        if not Crypto._Instance:\n            Crypto._Instance = CryptoInstance()\n        return Crypto._Instance", "        instance = Crypto._Instance\n        if instance is None:\n            instance = Crypto._Instance = CryptoInstance()\n        return instance"),
  ("        return Crypto.Hash160Bytes(message)", "        return bin_hash160Bytes(message)"), ("        return Crypto.Sign(message, private_key)", "        signature = Crypto.Sign(message, private_key)\n        return signature"),
  ("        return Crypto.VerifySignature(message, signature, public_key, unhex=unhex)", "        return Crypto.VerifySignature(message, signature, public_key, unhex)"))
s('y-c-curve', C,
  ("        bitcoin.change_curve(\n            int(\"FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF\", 16),\n            int(\"FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551\", 16),\n            int(\"FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC\", 16),\n            int(\"5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B\", 16),\n            int(\"6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296\", 16),\n            int(\"4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5\", 16)\n        )",
   "        prime = int(\"FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF\", 16)\n        bitcoin.change_curve(\n            prime,\n            0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551,\n            prime - 3,\n            0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B,\n            0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,\n            0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5)"))
s('y-c-curve2', C,
  ("class Crypto(object):\n", "_CURVE = tuple(int(text, 16) for text in (\n    \"FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF\",\n    \"FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551\",\n    \"FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC\",\n    \"5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B\",\n    \"6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296\",\n    \"4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5\"))\n\n\nclass Crypto(object):\n"),
  ("        bitcoin.change_curve(\n            int(\"FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF\", 16),\n            int(\"FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551\", 16),\n            int(\"FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC\", 16),\n            int(\"5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B\", 16),\n            int(\"6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296\", 16),\n            int(\"4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5\", 16)\n        )", "        bitcoin.change_curve(*_CURVE)"))
s('y-c-addr', C, ("        return scripthash_to_address(script_hash.Data)", "        return scripthash_to_address(bytes(script_hash.ToArray()))"), ("        return UInt160(data=binascii.unhexlify(bytes(Crypto.Hash160(data), encoding='utf-8')))", "        return UInt160(data=Crypto.Hash160Bytes(data))"))
s('y-c-import', C, ("from .Helper import *\n", "import binascii\nimport hashlib\nfrom .Helper import *\nfrom . import Helper\n"), ("        return bin_hash160(message)", "        return Helper.bin_hash160(message)"), ("        return bin_dbl_sha256(message)", "        return Helper.bin_dbl_sha256(message)"))
s('y-m-node', M,
  ("    def __init__(self, hash=None):\n        \"\"\"\n        Create an instance.\n\n        Args:\n            hash (bytes):\n        \"\"\"\n        self.Hash = hash", "    def __init__(self, hash=None):\n        \"\"\"\n        Create an instance.\n\n        Args:\n            hash (bytes):\n        \"\"\"\n        self.Hash = hash\n        self.Parent = None\n        self.LeftChild = None\n        self.RightChild = None"),
  ("        if not self.LeftChild and not self.RightChild:\n            return True\n        return False", "        return self.LeftChild is None and self.RightChild is None"))
s('y-m-dfs', M, ("        if node.LeftChild is None:\n            hashes.add(node.Hash)\n        else:\n            MerkleTree.__DepthFirstSearch(node.LeftChild, hashes)\n            MerkleTree.__DepthFirstSearch(node.RightChild, hashes)", "        if node.LeftChild is None:\n            hashes.add(node.Hash)\n            return\n        for child in (node.LeftChild, node.RightChild):\n            MerkleTree.__DepthFirstSearch(child, hashes)"))
s('y-m-ctor', M, ("    def __init__(self, hashes):", "    @staticmethod\n    def _depth_of(node):\n        depth = 1\n        while node.LeftChild is not None:\n            node = node.LeftChild\n            depth += 1\n        return depth\n\n    def __init__(self, hashes):"), ("        depth = 1\n        i = self.Root\n        while i.LeftChild is not None:\n            depth = depth + 1\n            i = i.LeftChild\n        self.Depth = depth", "        self.Depth = MerkleTree._depth_of(self.Root)"))
s('y-m-root', M, ("        if not len(hashes):\n            raise Exception('Hashes must have length')\n        if len(hashes) == 1:\n            return hashes[0]\n\n        tree = MerkleTree(hashes)\n        return tree.Root.Hash", "        count = len(hashes)\n        if count == 0:\n            raise Exception('Hashes must have length')\n        return hashes[0] if count == 1 else MerkleTree(hashes).Root.Hash"))
s('y-e-field', E,
  ("        return samefield(lhs, rhs) and self.value((lhs.value + rhs.value) % self.p)", "        if not samefield(lhs, rhs):\n            return False\n        total = lhs.value + rhs.value\n        return self.value(total % self.p)"),
  ("        return samefield(lhs, rhs) and self.value((lhs.value - rhs.value) % self.p)", "        return samefield(lhs, rhs) and self._reduced(lhs.value - rhs.value)\n\n    def _reduced(self, number):\n        return self.value(number % self.p)"),
  ("        return samefield(lhs, rhs) and self.value((lhs.value * rhs.value) % self.p)", "        return samefield(lhs, rhs) and self._reduced(rhs.value * lhs.value)"),
  ("        return (lhs.value - rhs.value) % self.p == 0", "        return lhs.value % self.p == rhs.value % self.p"),
  ("        return FiniteField.Value(self, 0)", "        return self.value(0)"), ("        return FiniteField.Value(self, 1)", "        return self.value(1)"),
  ("    if a.field != b.field:\n        return False\n    return True", "    return a.field == b.field"))
s('y-e-value', E,
  ("        return x if isinstance(x, FiniteField.Value) and x.field == self else FiniteField.Value(self, x)", "        if isinstance(x, FiniteField.Value) and x.field == self:\n            return x\n        return FiniteField.Value(self, x)"),
  ("        if type(x) is str:\n            hex = binascii.unhexlify(x)\n            return int.from_bytes(hex, 'big')\n\n        return x.value if isinstance(x, FiniteField.Value) else x", "        if isinstance(x, FiniteField.Value):\n            return x.value\n        if type(x) is str:\n            return int.from_bytes(binascii.unhexlify(x), 'big')\n        return x"),
  ("        return modinv(value.value % self.p, self.p)", "        number = value.value % self.p\n        return modinv(number, self.p)"))
s('y-e-point', E,
  ("            return self.x.iszero() and self.y.iszero()", "            return self.x.value == 0 and self.y.value == 0"), ("            return True if self == self.curve.Infinity else False", "            return self == self.curve.Infinity"),
  ("        return lhs.x == rhs.x and lhs.y == rhs.y", "        if lhs.x != rhs.x:\n            return False\n        return lhs.y == rhs.y"),
  ("        return self.point(pt.x, -pt.y)", "        opposite = -pt.y\n        return self.point(pt.x, opposite)"), ("        return self.point(0, 0)", "        return self.zero()"),
  ("        return EllipticCurve.ECPoint(self, self.field.value(x), self.field.value(y))", "        value = self.field.value\n        return EllipticCurve.ECPoint(self, value(x), value(y))"),
  ("        return pt * (1 / scalar)", "        inverse = 1 / scalar\n        return pt * inverse"))
s('y-e-serialize', E,
  ("            if self == self.curve.Infinity:\n                writer.WriteByte(b'\\x00')\n            else:\n                byt = self.encode_point(compressed=compress)\n                writer.WriteBytes(byt)", "            if self.IsInfinity:\n                writer.WriteByte(0)\n                return\n            writer.WriteBytes(self.encode_point(compress))"),
  ("            if self.IsInfinity:\n                return 1\n            else:\n                return 33", "            return 1 if self.IsInfinity else 33"))
s('y-e-sign', E,
  ("        m = self.GFn.value(message)\n        x = self.GFn.value(privkey)\n        k = self.GFn.value(secret)\n\n        R = self.G * k\n\n        r = self.GFn.value(R.x)\n        s = (m + x * r) / k\n\n        return (r, s)", "        m, x, k = [self.GFn.value(v) for v in (message, privkey, secret)]\n        r = self.GFn.value((self.G * k).x)\n        return r, (x * r + m) / k"),
  ("        return self.G * self.GFn.value(privkey)", "        key = self.GFn.value(privkey)\n        return self.G * key"))
s('y-e-verify', E, ("        R = self.G * (m / s) + pubkey * (r / s)", "        u1 = m / s\n        u2 = r / s\n        first = self.G * u1\n        second = pubkey * u2\n        R = first + second"))
s('y-e-crack', E,
  ("        sdelta = self.GFn.value(s1 - s2)\n        mdelta = self.GFn.value(m1 - m2)\n\n        secret = mdelta / sdelta", "        secret = self.GFn.value(m1 - m2) / self.GFn.value(s1 - s2)"),
  ("        return (s * k - m) / r", "        numerator = k * s - m\n        return numerator / r"))
s('y-e-const', E,
  ("class ECDSA:\n", "_P256 = int(\"FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF\", 16)\n\n\ndef _p256():\n    return EllipticCurve(FiniteField(_P256), _P256 - 3, 0x5AC635D8AA3A93E7B3EBBD55769886BC651D06B0CC53B0F63BCE3C3E27D2604B)\n\n\nclass ECDSA:\n"),
  ("    def Deserialize_Secp256r1(reader):\n        GFp = FiniteField(int(\"FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFF\", 16))\n        ec = EllipticCurve(GFp, 115792089210356248762697446949407573530086143415290314195533631308867097853948,\n                           41058363725152142129326129780047268409114441015993725554835256314039467401291)\n\n        return ec.decode_from_reader(reader)", "    def Deserialize_Secp256r1(reader):\n        return _p256().decode_from_reader(reader)"))
s('y-e-decode', E,
  ("        if check_on_curve:\n            if point.isoncurve():\n                return ECDSA(GFp, point, int(\"FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC\", 16))\n            else:\n                raise Exception(\"Could not decode string\")\n\n        return ECDSA(", "        if check_on_curve and not point.isoncurve():\n            raise Exception(\"Could not decode string\")\n\n        return ECDSA("))
s('y-e-reader', E,
  ("        if f == 2 or f == 3:\n            yTilde = f & 1\n            data = bytearray(reader.SafeReadBytes(32))\n            data.reverse()\n            data.append(0)\n            X1 = int.from_bytes(data, 'little')\n            return self.decompress_from_curve(X1, yTilde)\n\n        # uncompressed or hybrid\n        elif f == 4 or f == 6 or f == 7:\n            raise NotImplementedError()", "        if f in (2, 3):\n            X1 = int.from_bytes(reader.SafeReadBytes(32), 'big')\n            return self.decompress_from_curve(X1, f - 2)\n\n        # uncompressed or hybrid\n        if f in (4, 6, 7):\n            raise NotImplementedError()"))
s('y-h-redeem', H, ("def pubkey_to_redeem(", "def _push(data):\n    return bytes([len(data)]) + data\n\n\ndef pubkey_to_redeem("))
s('y-utils', 'Utils.py', ("    valid = False\n\n    if len(address) == 34 and address[0] == 'A':\n        try:\n            data = base58.b58decode_check(address.encode())\n            valid = len(data) == 21 and data[0] == 0x17\n        except ValueError:\n            # checksum mismatch\n            valid = False\n\n    return valid", "    if len(address) != 34 or not address.startswith('A'):\n        return False\n    try:\n        data = base58.b58decode_check(address.encode())\n    except ValueError:\n        return False\n    return len(data) == 21 and data[0] == 0x17"))
s('y-utils2', 'Utils.py', ("            data = base58.b58decode_check(address.encode())\n            valid = len(data) == 21 and data[0] == 0x17", "            data = base58.b58decode_check(address)\n            version, script_hash = data[:1], data[1:]\n            valid = version == b'\\x17' and len(script_hash) == 20"))
s('y-l-wallet', L, ("    private_key = bytes(Random.get_random_bytes(32))\n    keypair = KeyPair(priv_key=private_key)\n    return {\n        \"private_key\": keypair.Export(),\n        \"address\": keypair.GetAddress()\n    }", "    keypair = KeyPair(bytes(Random.get_random_bytes(32)))\n    wallet = {}\n    wallet[\"private_key\"] = keypair.Export()\n    wallet[\"address\"] = keypair.GetAddress()\n    return wallet"))

# ---- a further batch
s('z-fa-loop', E, ("    def add(self, lhs, rhs):\n        return samefield(lhs, rhs) and self.value((lhs.value + rhs.value) % self.p)", "    def add(self, lhs, rhs):\n        if not samefield(lhs, rhs):\n            return False\n        total = (lhs.value + rhs.value) % self.p\n        return self.value(total)"),
  ("    def sub(self, lhs, rhs):\n        return samefield(lhs, rhs) and self.value((lhs.value - rhs.value) % self.p)", "    def sub(self, lhs, rhs):\n        samefield(lhs, rhs)\n        return self.value((lhs.value + self.p - rhs.value) % self.p)"))
s('z-fneg', E, ("        return self.value((self.p - val.value) % self.p)", "        return self.value(0 if val.value == 0 else self.p - val.value % self.p if val.value % self.p else 0)"))
s('z-feq', E, ("        return (lhs.value - rhs.value) % self.p == 0", "        return lhs.value % self.p == rhs.value % self.p"))
s('z-fpow', E, ("        return self.value(pow(int(lhs.value), int(self.integer(rhs)), self.p))", "        exponent = int(self.integer(rhs))\n        base = int(lhs.value)\n        result = pow(base, exponent, self.p)\n        return FiniteField.Value(self, result)"))
s('z-fdiv', E, ("        return samefield(lhs, rhs) and self.value((lhs.value * rhs.inverse()) % self.p)", "        inverted = self.value(rhs.inverse())\n        return samefield(lhs, rhs) and self.mul(lhs, inverted)"))
s('z-sqrt', E, ("        sw = self.p % 8\n        if sw == 3 or sw == 7:\n            res = val ** ((self.p + 1) // 4)\n        elif sw == 5:", "        if self.p % 4 == 3:\n            res = val ** ((self.p + 1) // 4)\n        elif self.p % 8 == 5:"),
  ("        if res.value % 2 == flag:\n            return res\n        else:\n            return -res", "        return res if res.value % 2 == flag else -res"))
s('z-sqrt2', E, ("        if res.value % 2 == flag:\n            return res\n        else:\n            return -res", "        if (res.value & 1) != flag:\n            res = -res\n        return res"))
s('z-int', E, ("        if type(x) is str:\n            hex = binascii.unhexlify(x)\n            return int.from_bytes(hex, 'big')\n\n        return x.value if isinstance(x, FiniteField.Value) else x", "        if isinstance(x, FiniteField.Value):\n            return x.value\n        if type(x) is str:\n            return int.from_bytes(bytes.fromhex(x), byteorder='big')\n        return x"))
s('z-eadd', E, ("        if p == q:\n            if p.y == 0:\n                return self.zero()\n            lft = (3 * p.x ** 2 + self.a) / (2 * p.y)\n        elif p.x == q.x:\n            return self.zero()\n        else:\n            lft = (p.y - q.y) / (p.x - q.x)\n", "        if p.x == q.x:\n            if p.y != q.y or p.y == 0:\n                return self.zero()\n            lft = (3 * p.x * p.x + self.a) / (p.y + p.y)\n        else:\n            lft = (q.y - p.y) / (q.x - p.x)\n"))
s('z-eadd2', E, ("        lft = 0\n        # calculate", "        # calculate"), ("        x = lft ** 2 - (p.x + q.x)\n        y = lft * (p.x - x) - p.y\n        return self.point(x, y)", "        x3 = lft * lft - p.x - q.x\n        return self.point(x3, lft * (p.x - x3) - p.y)"))
s('z-eadd3', E, ("            lft = (3 * p.x ** 2 + self.a) / (2 * p.y)\n", "            lft = self._tangent(p)\n"), ("            lft = (p.y - q.y) / (p.x - q.x)\n", "            lft = self._chord(p, q)\n"), ("    # subtraction is :  a - b  =  a + -b\n", "    def _tangent(self, p):\n        return (3 * p.x ** 2 + self.a) / (2 * p.y)\n\n    @staticmethod\n    def _chord(p, q):\n        return (p.y - q.y) / (p.x - q.x)\n\n    # subtraction is :  a - b  =  a + -b\n"))
s('z-emul', E, ("        while scalar != 0:\n            bit = scalar % 2\n            if bit:\n                accumulator += shifter\n            shifter += shifter\n            scalar //= 2\n", "        while scalar:\n            if scalar & 1:\n                accumulator = accumulator + shifter\n            shifter = shifter + shifter\n            scalar >>= 1\n"))
s('z-emul2', E, ("        while scalar != 0:\n            bit = scalar % 2\n            if bit:\n                accumulator += shifter\n            shifter += shifter\n            scalar //= 2\n", "        while scalar != 0:\n            scalar, bit = divmod(scalar, 2)\n            if bit == 1:\n                accumulator = self.add(accumulator, shifter)\n            shifter = self.add(shifter, shifter)\n"))
s('z-eneg', E, ("        return self.point(pt.x, -pt.y)", "        y = self.field.neg(pt.y)\n        return EllipticCurve.ECPoint(self, pt.x, y)"))
s('z-ecurve', E, ("        return p.iszero() or p.y ** 2 == p.x ** 3 + self.a * p.x + self.b", "        if p.iszero():\n            return True\n        left = p.y * p.y\n        right = (p.x ** 2 + self.a) * p.x + self.b\n        return left == right"))
s('z-enc', E, ("            if compressed:\n                byteone = b'\\x03'\n                if self.y.value % 2 == 0:\n                    byteone = b'\\x02'\n\n                data = bytearray(byteone) + xbytes\n                return binascii.hexlify(data)\n\n            else:\n\n                ybytes", "            if compressed:\n                prefix = 2 + (self.y.value & 1)\n                return binascii.hexlify(bytes([prefix]) + bytes(xbytes))\n            else:\n                ybytes"))
s('z-dec', E, ("            x_data = bytearray(ba[1:1 + expected_byte_len])\n            x_data.reverse()\n            x_data.append(0)\n\n            y_data = bytearray(ba[1 + expected_byte_len:])\n            y_data.reverse()\n            y_data.append(0)\n\n            x = int.from_bytes(x_data, 'little')\n            y = int.from_bytes(y_data, 'little')\n\n            pnt = self.point(x, y)\n            return pnt", "            middle = 1 + expected_byte_len\n            x = int.from_bytes(ba[1:middle], 'big')\n            y = int.from_bytes(ba[middle:], 'big')\n            return self.point(x, y)"))
s('z-dec2', E, ("        expected_byte_len = int((_bitlength(cq) + 7) / 8)\n", "        expected_byte_len = (cq.bit_length() + 7) // 8\n"), ("        ba = None\n        if unhex:\n            ba = bytearray(binascii.unhexlify(hex_str))\n        else:\n            ba = hex_str\n", "        ba = bytearray(binascii.unhexlify(hex_str)) if unhex else hex_str\n"))
s('z-decomp', E, ("        bit0 = 0\n        if ysquare_root % 2 is not 0:\n            bit0 = 1\n\n        if bit0 != flag:\n            beta = (cq - ysquare_root) % cq\n        else:\n            beta = ysquare_root\n\n        return self.point(x, beta)", "        if ysquare_root % 2 == flag:\n            return self.point(x, ysquare_root)\n        return self.point(x, (cq - ysquare_root) % cq)"))
s('z-reader', E, ("        f = reader.ReadByte()\n\n        if f == 0:\n            return self.Infinity\n\n        # these are compressed\n        if f == 2 or f == 3:\n            yTilde = f & 1\n            data = bytearray(reader.SafeReadBytes(32))\n            data.reverse()\n            data.append(0)\n            X1 = int.from_bytes(data, 'little')\n            return self.decompress_from_curve(X1, yTilde)\n", "        f = reader.ReadByte()\n        if f in (2, 3):\n            x = int.from_bytes(reader.SafeReadBytes(32), 'big')\n            return self.decompress_from_curve(x, f - 2)\n        if f == 0:\n            return self.Infinity\n"), ("        # uncompressed or hybrid\n        elif f == 4 or f == 6 or f == 7:\n            raise NotImplementedError()\n\n        raise", "        if f in (4, 6, 7):\n            raise NotImplementedError()\n        raise"))
s('z-sign', E, ("        R = self.G * k\n\n        r = self.GFn.value(R.x)\n        s = (m + x * r) / k\n\n        return (r, s)", "        r = self.GFn.value((self.G * k).x)\n        return r, (x * r + m) * (1 / k)"))
s('z-verify', E, ("        R = self.G * (m / s) + pubkey * (r / s)\n", "        w = 1 / s\n        u1 = m * w\n        u2 = r * w\n        R = self.G * u1 + pubkey * u2\n"))
s('z-cmp', E, ("            if other == self:\n                return True\n            return self.__gt__(other)", "            return other == self or self > other"), ("            if other == self:\n                return True\n            return self.__lt__(other)", "            return other == self or self < other"))
s('z-cmp2', E, ("            if other == self:\n                return False\n            elif self.x.value < other.x.value:\n                return True\n            elif self.x.value > other.x.value:\n                return False\n\n            return self.y.value < other.y.value", "            if self.x.value != other.x.value:\n                return self.x.value < other.x.value\n            return self.y.value < other.y.value"))
s('z-m-build', M, ("        num_parents = int((len(leaves) + 1) / 2)\n        parents = [MerkleTreeNode() for i in range(0, num_parents)]\n\n        for i in range(0, num_parents):\n            node = parents[i]\n            node.LeftChild = leaves[i * 2]\n            leaves[i * 2].Parent = node\n            if (i * 2 + 1 == len(leaves)):\n                node.RightChild = node.LeftChild\n            else:\n                node.RightChild = leaves[i * 2 + 1]\n                leaves[i * 2 + 1].Parent = node\n\n            hasharray = bytearray(node.LeftChild.Hash.ToArray() + node.RightChild.Hash.ToArray())\n            node.Hash = UInt256(data=Crypto.Hash256(hasharray))\n", "        parents = []\n        for i in range(0, len(leaves), 2):\n            left = leaves[i]\n            right = leaves[i + 1] if i + 1 < len(leaves) else left\n            node = MerkleTreeNode(UInt256(data=Crypto.Hash256(bytearray(left.Hash.ToArray() + right.Hash.ToArray()))))\n            node.LeftChild = left\n            node.RightChild = right\n            left.Parent = node\n            right.Parent = node\n            parents.append(node)\n"))
s('z-m-build2', M, ("        num_parents = int((len(leaves) + 1) / 2)\n", "        num_parents = (len(leaves) + 1) // 2\n"), ("            if (i * 2 + 1 == len(leaves)):\n                node.RightChild = node.LeftChild\n            else:\n                node.RightChild = leaves[i * 2 + 1]\n                leaves[i * 2 + 1].Parent = node\n", "            has_right = i * 2 + 1 < len(leaves)\n            node.RightChild = leaves[i * 2 + 1] if has_right else node.LeftChild\n            node.RightChild.Parent = node\n"))
s('z-m-hash', M, ("            hasharray = bytearray(node.LeftChild.Hash.ToArray() + node.RightChild.Hash.ToArray())\n            node.Hash = UInt256(data=Crypto.Hash256(hasharray))\n", "            node.Hash = MerkleTree._hash_pair(node.LeftChild, node.RightChild)\n"), ("    @staticmethod\n    def __DepthFirstSearch", "    @staticmethod\n    def _hash_pair(left, right):\n        data = bytearray(left.Hash.ToArray())\n        data.extend(right.Hash.ToArray())\n        return UInt256(data=Crypto.Hash256(data))\n\n    @staticmethod\n    def __DepthFirstSearch"))
s('z-m-trim', M, ("            if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:\n                node.LeftChild = None\n                node.RightChild = None", "            if node.LeftChild.LeftChild is not None or node.RightChild.RightChild is not None:\n                return\n            node.LeftChild = node.RightChild = None"))
s('z-m-trim2', M, ("            if not any(flags[index * 2:index * 2 + 2]):\n                node.LeftChild = None\n                node.RightChild = None\n", "            pair = flags[index * 2:index * 2 + 2]\n            if pair.count(0) == len(pair):\n                node.LeftChild = None\n                node.RightChild = None\n"))
s('z-m-flags', M, ("        flags = bytearray(flags)\n        length = 1 << self.Depth - 1\n        while len(flags) < length:\n            flags.append(0)\n", "        length = 2 ** (self.Depth - 1)\n        flags = bytearray(flags)\n        missing = length - len(flags)\n        if missing > 0:\n            flags += bytearray(missing)\n"))
s('z-c-ver', C, ("        try:\n            if len(public_key) == 33:\n                Crypto.SetupSignatureCurve()\n                public_key = bitcoin.decompress(public_key)\n                public_key = public_key[1:]\n\n            vk = VerifyingKey.from_string(public_key, curve=NIST256p, hashfunc=hashlib.sha256)\n            res = vk.verify(signature, message, hashfunc=hashlib.sha256)\n            return res\n        except Exception as e:\n            pass\n\n        return False", "        try:\n            vk = VerifyingKey.from_string(Crypto._raw_key(public_key), curve=NIST256p, hashfunc=hashlib.sha256)\n            return vk.verify(signature, message, hashfunc=hashlib.sha256)\n        except Exception as e:\n            return False\n\n    @staticmethod\n    def _raw_key(public_key):\n        if len(public_key) != 33:\n            return public_key\n        Crypto.SetupSignatureCurve()\n        return bitcoin.decompress(public_key)[1:]"))
s('z-c-sign', C, ("        rb = bytearray(r.to_bytes(32, 'big'))\n        sb = bytearray(s.to_bytes(32, 'big'))\n\n        sig = rb + sb\n\n        return sig", "        sig = bytearray()\n        for number in (r, s):\n            sig.extend(number.to_bytes(32, 'big'))\n        return sig"))
s('z-c-sign2', C, ("        hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()\n\n        v, r, s = bitcoin.ecdsa_raw_sign(hash, private_key)\n", "        digest = hashlib.sha256()\n        digest.update(binascii.unhexlify(message))\n        _, r, s = bitcoin.ecdsa_raw_sign(digest.hexdigest(), private_key)\n"))
s('z-c-script', C, ("        return UInt160(data=binascii.unhexlify(bytes(Crypto.Hash160(data), encoding='utf-8')))", "        return UInt160(data=bytes.fromhex(Crypto.Hash160(data)))"))
s('z-k-wif', K, ("        data = bytearray(38)\n        data[0] = 0x80\n        data[1:33] = self.PrivateKey[0:32]\n        data[33] = 0x01\n\n        checksum = Crypto.Default().Hash256(data[0:34])\n        data[34:38] = checksum[0:4]\n        b58 = base58.b58encode(bytes(data))\n\n        return b58.decode(\"utf-8\")", "        payload = b'\\x80' + bytes(self.PrivateKey[0:32]) + b'\\x01'\n        checksum = bytes(Crypto.Hash256(payload))[:4]\n        return base58.b58encode(payload + checksum).decode(\"utf-8\")"))
s('z-k-wif2', K, ("        if length is not 38 or data[0] is not 0x80 or data[33] is not 0x01:\n            raise ValueError(\"Invalid format!\")\n\n        checksum = Crypto.Hash256(data[0:34])[0:4]\n\n        if checksum != data[34:]:\n            raise ValueError(\"Invalid WIF Checksum!\")\n\n        return data[1:33]", "        if length != 38:\n            raise ValueError(\"Invalid format!\")\n        payload, checksum = data[:34], data[34:]\n        if payload[0] != 0x80 or payload[-1] != 0x01:\n            raise ValueError(\"Invalid format!\")\n        if Crypto.Hash256(payload)[:4] != checksum:\n            raise ValueError(\"Invalid WIF Checksum!\")\n        return payload[1:33]"))
s('z-k-nep', K, ("        # Hash address twice, then only use the first 4 bytes\n        address_hash_tmp = hashlib.sha256(self.GetAddress().encode(\"utf-8\")).digest()\n        address_hash_tmp2 = hashlib.sha256(address_hash_tmp).digest()\n        address_hash = address_hash_tmp2[:4]\n", "        address_hash = self._address_hash()\n"), ("        kp_new_address = kp_new.GetAddress()\n        kp_new_address_hash_tmp = hashlib.sha256(kp_new_address.encode(\"utf-8\")).digest()\n        kp_new_address_hash_tmp2 = hashlib.sha256(kp_new_address_hash_tmp).digest()\n        kp_new_address_hash = kp_new_address_hash_tmp2[:4]\n        if (kp_new_address_hash != address_hash):\n            raise", "        if kp_new._address_hash() != address_hash:\n            raise"), ("    def GetAddress(self):", "    def _address_hash(self):\n        data = self.GetAddress().encode(\"utf-8\")\n        for _ in range(2):\n            data = hashlib.sha256(data).digest()\n        return data[:4]\n\n    def GetAddress(self):"))
s('z-k-nep2', K, ("        assembled = bytearray()\n        assembled.extend(NEP_HEADER)\n        assembled.extend(NEP_FLAG)\n        assembled.extend(address_hash)\n        assembled.extend(encrypted)\n\n        # Finally, encode with Base58Check\n        encrypted_key_nep2 = base58.b58encode_check(bytes(assembled))\n        return encrypted_key_nep2.decode(\"utf-8\")", "        assembled = b''.join([bytes(NEP_HEADER), bytes(NEP_FLAG), address_hash, encrypted])\n        return base58.b58encode_check(assembled).decode(\"utf-8\")"))
s('z-k-init', K, ("        if length != 32 and length != 96 and length != 104:\n            raise ValueError(\"Invalid private key\")\n", "        if length not in (32, 96, 104):\n            raise ValueError(\"Invalid private key\")\n"), ("            pubkey_points = bitcoin.decode_pubkey(pubkey_encoded_not_compressed, 'bin')\n\n            pubx = pubkey_points[0]\n            puby = pubkey_points[1]\n            edcsa = ECDSA.secp256r1()\n            self.PublicKey = edcsa.Curve.point(pubx, puby)\n", "            pubx, puby = bitcoin.decode_pubkey(pubkey_encoded_not_compressed, 'bin')\n            curve = ECDSA.secp256r1().Curve\n            self.PublicKey = curve.point(pubx, puby)\n"))
s('z-h-b256', H, ("        arr = []\n        while n:\n            n, rem = divmod(n, 256)\n            arr.append(rem)\n        b = bytearray(reversed(arr))\n", "        b = bytearray(n.to_bytes((n.bit_length() + 7) // 8, 'big'))\n"))
s('z-l-addr', L, ("    # Make sure there is a signature byte, a scripthash and a checksum\n    if len(data) != 25:\n        raise ConversionError(\"Invalid address: wrong length\")\n\n    # Make sure signature byte is correct.\n    if data[0] != 0x17:\n        raise ConversionError(\"Invalid address: wrong signature byte\")\n\n    # Make sure the checksum is correct\n    if data[-4:] != hashlib.sha256(hashlib.sha256(data[:-4]).digest()).digest()[:4]:\n        raise ConversionError(\"Invalid address: invalid checksum\")\n\n    # Return only the scripthash bytes\n    return data[1:-4]", "    if len(data) != 25:\n        raise ConversionError(\"Invalid address: wrong length\")\n    payload, checksum = data[:21], data[21:]\n    if payload[0] != 0x17:\n        raise ConversionError(\"Invalid address: wrong signature byte\")\n    digest = hashlib.sha256(payload).digest()\n    digest = hashlib.sha256(digest).digest()\n    if digest[:4] != checksum:\n        raise ConversionError(\"Invalid address: invalid checksum\")\n    return payload[1:]"))
s('z-l-main', L, ("            scripthash = address_to_scripthash(args.address_to_scripthash[0])\n            print(\"Scripthash big endian:  0x{}\".format(scripthash[::-1].hex()))\n            print(\"Scripthash little endian: {}\".format(scripthash.hex(), scripthash))\n            print(\"Scripthash neo-python format: {!r}\".format(scripthash))\n", "            show_scripthash(address_to_scripthash(args.address_to_scripthash[0]))\n"), ("def main():\n", "def show_scripthash(scripthash):\n    big = scripthash[::-1].hex()\n    little = scripthash.hex()\n    print(\"Scripthash big endian:  0x\" + big)\n    print(\"Scripthash little endian: \" + little)\n    print(\"Scripthash neo-python format: %r\" % (scripthash,))\n\n\ndef main():\n"))
s('z-f-dec', F, ("            return Fixed8(int(val * Fixed8.D))", "            units = val * Fixed8.D\n            return Fixed8(int(units))"), ("            if require_positive and val < 0:\n                return None\n\n", "            if val < 0 and require_positive:\n                return None\n\n"))
s('z-f-div', F, ("        quotient = abs(self.value) // abs(other.value)\n        return Fixed8(quotient if (self.value < 0) == (other.value < 0) else -quotient)", "        quotient, remainder = divmod(self.value, other.value)\n        if remainder != 0 and quotient < 0:\n            quotient += 1\n        return Fixed8(quotient)"))
s('z-f-ceil', F, ("        return Fixed8(-(-self.value // Fixed8.D) * Fixed8.D)", "        rest = self.value % Fixed8.D\n        if rest == 0:\n            return Fixed8(self.value)\n        return Fixed8(self.value - rest + Fixed8.D)"), ("        return Fixed8(self.value // Fixed8.D * Fixed8.D)", "        return Fixed8(self.value - self.value % Fixed8.D)"))
s('z-f-toint', F, ("        whole = abs(self.value) // Fixed8.D\n        return whole if self.value >= 0 else -whole", "        if self.value < 0:\n            return -(-self.value // Fixed8.D)\n        return self.value // Fixed8.D"))
s('z-b-bytes', B, ("        if self == 0:\n            return b'\\x00'\n\n        if self < 0:\n            return self.to_bytes(1 + ((self.bit_length() + 7) // 8), byteorder='little', signed=True)\n\n        try:\n            return self.to_bytes((self.bit_length() + 7) // 8, byteorder='little', signed=signed)\n        except OverflowError:\n            return self.to_bytes(1 + ((self.bit_length() + 7) // 8), byteorder='little', signed=signed)", "        if self == 0:\n            return b'\\x00'\n        size = (self.bit_length() + 7) // 8\n        if self < 0:\n            return self.to_bytes(size + 1, 'little', signed=True)\n        if signed and self.bit_length() == 8 * size:\n            size += 1\n        return self.to_bytes(size, 'little', signed=signed)"))
s('z-u-cmp', UB, ("        length = len(x)\n\n        for i in range(length - 1, -1, -1):\n            if x[i] > y[i]:\n                return 1\n            if x[i] < y[i]:\n                return -1\n\n        return 0", "        a = int.from_bytes(x, 'little')\n        b = int.from_bytes(y, 'little')\n        return (a > b) - (a < b)"))
s('z-u-cmp2', UB, ("        for i in range(length - 1, -1, -1):\n            if x[i] > y[i]:\n                return 1\n            if x[i] < y[i]:\n                return -1\n\n        return 0", "        i = length - 1\n        while i >= 0 and x[i] == y[i]:\n            i -= 1\n        if i < 0:\n            return 0\n        return 1 if x[i] > y[i] else -1"))
s('z-u-cmp3', UB, ("        for i in range(length - 1, -1, -1):\n            if x[i] > y[i]:\n                return 1\n            if x[i] < y[i]:\n                return -1\n\n        return 0", "        left, right = bytes(x)[::-1], bytes(y)[::-1]\n        if left == right:\n            return 0\n        return 1 if left > right else -1"))
s('z-u1-parse', U1, ("        if value[0:2] == '0x':\n            value = value[2:]", "        if value.startswith('0x'):\n            value = value[2:]"))
s('z-w-array', W, ("        if array is None:\n            self.WriteByte(0)\n        else:\n            self.WriteVarInt(len(array))\n            for item in array:\n                item.Serialize(self)", "        if array is None:\n            return self.WriteByte(0)\n        count = len(array)\n        self.WriteVarInt(count)\n        for i in range(count):\n            array[i].Serialize(self)"))
s('z-w-hashes', W, ("        length = len(arr)\n        self.WriteVarInt(length)\n        for item in arr:\n            ba = bytearray(binascii.unhexlify(item))\n            ba.reverse()\n            #            logger.info(\"WRITING HASH %s \" % ba)\n            self.WriteBytes(ba, unhex=False)", "        self.WriteVarInt(len(arr))\n        for item in arr:\n            self._write_reversed(item)\n\n    def _write_reversed(self, item):\n        self.WriteBytes(binascii.unhexlify(item)[::-1], unhex=False)"), ("        for item in arr:\n            ba = bytearray(binascii.unhexlify(item))\n            ba.reverse()\n            self.WriteBytes(ba, unhex=False)\n", "        for item in arr:\n            self._write_reversed(item)\n"))
s('z-r-hashes', R, ("            ba = bytearray(self.ReadBytes(32))\n            ba.reverse()\n            items.append(ba.hex())", "            raw = self.ReadBytes(32)\n            items.append(raw[::-1].hex())"))
s('z-r-var', R, ("        if hex(fb) == '0xfd':\n            value = self.ReadUInt16()\n        elif hex(fb) == '0xfe':\n            value = self.ReadUInt32()\n        elif hex(fb) == '0xff':\n            value = self.ReadUInt64()\n        else:\n            value = fb\n", "        if fb < 0xfd:\n            value = fb\n        else:\n            value = (self.ReadUInt16, self.ReadUInt32, self.ReadUInt64)[fb - 0xfd]()\n"))
s('z-utils', 'Utils.py', ("    valid = False\n\n    if len(address) == 34 and address[0] == 'A':\n        try:\n            data = base58.b58decode_check(address.encode())\n            valid = len(data) == 21 and data[0] == 0x17\n        except ValueError:\n            # checksum mismatch\n            valid = False\n\n    return valid", "    if len(address) != 34 or not address.startswith('A'):\n        return False\n    try:\n        data = base58.b58decode_check(address.encode())\n    except ValueError:\n        return False\n    return len(data) == 21 and data[0] == 0x17"))


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def one(x):
    id, f, edits = x
    tmp = tempfile.mkdtemp(prefix='ref', dir='/tmp')
    out = []
    try:
        w = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', w, symlinks=True, ignore=shutil.ignore_patterns('.git', 'docs'))
        p = os.path.join(w, 'neocore', f)
        src = open(p).read()
        for old, new in edits:
            if src.count(old) != 1:
                return '%s BAD EDIT (%d) %r' % (id, src.count(old), old[:60])
            src = src.replace(old, new)
        open(p, 'w').write(src)
        env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PATH='/opt/venv/bin:' + os.environ['PATH'])
        t = run(['/opt/venv/bin/python', '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', 'tests'], cwd=w, env=env)
        if t.returncode:
            return '%s TESTS FAIL %s' % (id, t.stdout.decode()[-300:])
        for c in CHECKS[f].split():
            t0 = time.time()
            q = run(['python3-vt', '-B', os.path.join(V, 'check.py'), c, 'quick'], env=dict(os.environ, PYVC_REPO=w, PYVC_EVID=os.path.join(tmp, 'ev')))
            o = q.stdout.decode()
            if q.returncode:
                v = [l for l in o.splitlines() if 'theorem ' in l or 'contract ' in l or 'rror' in l]
                out.append('%s rc=%d %s %d s | %s' % (c, q.returncode, ('nfi' if all('no-failing' in l for l in o.splitlines() if l.startswith('VIOLATION')) else 'REPLAYED') if 'VIOLATION' in o else o[-300:], time.time() - t0, ' ; '.join(l.strip()[:170] for l in v[:3])))
            elif time.time() - t0 > 200:
                out.append('%s slow %d' % (c, time.time() - t0))
        return '%s %s' % (id, '\n      '.join(out) or 'quiet')
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    ids = sys.argv[1:]
    with ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
        for r in ex.map(one, [x for x in S if not ids or x[0] in ids]):
            print(r, flush=True)
