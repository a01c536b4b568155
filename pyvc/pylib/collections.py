"""Library classes written in Python."""
OrderedDict = dict


class deque:
    def __init__(self, items=(), maxlen=None):
        if maxlen is not None:
            raise NotImplementedError("deque with maxlen")
        self.items = list(items)

    def append(self, x):
        self.items.append(x)

    def appendleft(self, x):
        self.items.insert(0, x)

    def extend(self, xs):
        self.items.extend(xs)

    def pop(self):
        if not self.items:
            raise IndexError("pop from an empty deque")
        return self.items.pop()

    def popleft(self):
        if not self.items:
            raise IndexError("pop from an empty deque")
        return self.items.pop(0)

    def clear(self):
        self.items = []

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __contains__(self, x):
        return x in self.items


class defaultdict:
    def __init__(self, default_factory=None, *args):
        self.table = dict(*args)
        self.default_factory = default_factory

    def __getitem__(self, key):
        if key not in self.table:
            if self.default_factory is None:
                raise KeyError(key)
            self.table[key] = self.default_factory()
        return self.table[key]

    def __setitem__(self, key, value):
        self.table[key] = value

    def __contains__(self, key):
        return key in self.table

    def __len__(self):
        return len(self.table)

    def __iter__(self):
        return iter(self.table)

    def get(self, key, default=None):
        return self.table.get(key, default)

    def items(self):
        return self.table.items()

    def keys(self):
        return self.table.keys()

    def values(self):
        return self.table.values()
