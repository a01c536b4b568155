"""Library classes written in Python."""


class suppress:
    def __init__(self, *kinds):
        self.kinds = kinds

    def __enter__(self):
        return None

    def __exit__(self, kind, value, trace):
        return kind is not None and issubclass(kind, self.kinds)


class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *args):
        self.thing.close()


class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *args):
        return None
