"""Library functions written in Python: interpreted like the code under test."""


def update_wrapper(wrapper, wrapped, *args, **kwargs):
    return wrapper


def wraps(wrapped, *args, **kwargs):
    def deco(f):
        return f
    return deco


def reduce(function, sequence, *initial):
    it = iter(sequence)
    if initial:
        value = initial[0]
    else:
        done = True
        for x in it:
            value = x
            done = False
            break
        if done:
            raise TypeError("reduce() of empty iterable with no initial value")
    for x in it:
        value = function(value, x)
    return value


def partial(function, *args, **kw):
    def call(*more, **kw2):
        both = dict(kw)
        both.update(kw2)
        return function(*args, *more, **both)
    return call


def lru_cache(maxsize=128, typed=False):
    """(entries are never dropped: a dropped entry is computed again)"""
    if callable(maxsize):
        return _memo(maxsize)
    return _memo


def cache(function):
    return _memo(function)


def _memo(function):
    memo = {}

    def call(*args, **kw):
        key = args
        if kw:
            key = args + ("kw",) + tuple(sorted(kw.items()))
        if key in memo:
            return memo[key]
        value = function(*args, **kw)
        memo[key] = value
        return value

    def cache_clear():
        memo.clear()
    call.cache_clear = cache_clear
    call.__wrapped__ = function
    return call


def cmp_to_key(compare):
    class K:
        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, other):
            return compare(self.obj, other.obj) < 0

        def __gt__(self, other):
            return compare(self.obj, other.obj) > 0

        def __eq__(self, other):
            return compare(self.obj, other.obj) == 0

        def __le__(self, other):
            return compare(self.obj, other.obj) <= 0

        def __ge__(self, other):
            return compare(self.obj, other.obj) >= 0
    return K


def total_ordering(cls):
    have = [n for n in ("__lt__", "__gt__", "__le__", "__ge__") if n in cls.__dict__]
    if not have:
        raise ValueError("must define at least one ordering operation: < > <= >=")
    if "__lt__" in have:
        root = "__lt__"

        def gt(self, other):
            r = self.__lt__(other)
            return r if r is NotImplemented else not r and self != other

        def le(self, other):
            r = self.__lt__(other)
            return r if r is NotImplemented else r or self == other

        def ge(self, other):
            r = self.__lt__(other)
            return r if r is NotImplemented else not r
        made = {"__gt__": gt, "__le__": le, "__ge__": ge}
    elif "__le__" in have:
        root = "__le__"

        def ge(self, other):
            r = self.__le__(other)
            return r if r is NotImplemented else not r or self == other

        def lt(self, other):
            r = self.__le__(other)
            return r if r is NotImplemented else r and self != other

        def gt(self, other):
            r = self.__le__(other)
            return r if r is NotImplemented else not r
        made = {"__ge__": ge, "__lt__": lt, "__gt__": gt}
    elif "__gt__" in have:
        root = "__gt__"

        def lt(self, other):
            r = self.__gt__(other)
            return r if r is NotImplemented else not (r or self == other)

        def ge(self, other):
            r = self.__gt__(other)
            return r if r is NotImplemented else r or self == other

        def le(self, other):
            r = self.__gt__(other)
            return r if r is NotImplemented else not r
        made = {"__lt__": lt, "__ge__": ge, "__le__": le}
    else:
        root = "__ge__"

        def le(self, other):
            r = self.__ge__(other)
            return r if r is NotImplemented else not r or self == other

        def gt(self, other):
            r = self.__ge__(other)
            return r if r is NotImplemented else r and self != other

        def lt(self, other):
            r = self.__ge__(other)
            return r if r is NotImplemented else not r
        made = {"__le__": le, "__gt__": gt, "__lt__": lt}
    for n in made:
        if n not in have:
            setattr(cls, n, made[n])
    return cls


class cached_property:
    def __init__(self, f):
        self.f = f

    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, obj, owner=None):
        if obj is None:
            return self
        if self.name not in obj.__dict__:
            obj.__dict__[self.name] = self.f(obj)
        return obj.__dict__[self.name]
