"""Library functions written in Python (eager: what they give is computed at once)."""


def chain(*parts):
    out = []
    for p in parts:
        for x in p:
            out.append(x)
    return iter(out)


def starmap(f, args):
    return iter([f(*a) for a in args])


def zip_longest(*parts, fillvalue=None):
    lists = [list(p) for p in parts]
    n = max([len(p) for p in lists]) if lists else 0
    return iter([tuple([p[i] if i < len(p) else fillvalue for p in lists]) for i in range(n)])


def repeat(x, times):
    return iter([x for _ in range(times)])


def islice(seq, *args):
    part = list(seq)
    if len(args) == 1:
        return iter(part[:args[0]])
    return iter(part[slice(*args)])


def accumulate(seq, func=None, *, initial=None):
    out = []
    first = initial is None
    total = initial
    if not first:
        out.append(total)
    for x in seq:
        if first:
            total = x
            first = False
        else:
            total = total + x if func is None else func(total, x)
        out.append(total)
    return iter(out)


def product(*parts, repeat=1):
    out = [()]
    for p in [list(p) for p in parts] * repeat:
        out = [a + (b,) for a in out for b in p]
    return iter(out)


def takewhile(f, seq):
    out = []
    for x in seq:
        if not f(x):
            break
        out.append(x)
    return iter(out)


def dropwhile(f, seq):
    out = []
    dropping = True
    for x in seq:
        if dropping and f(x):
            continue
        dropping = False
        out.append(x)
    return iter(out)
