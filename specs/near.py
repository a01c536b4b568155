"""Inputs close to each other, drawn on the real code (the verifier takes all inputs)."""


def near(a):
    """makes bytes of the length of a, given a source of random numbers"""
    def draw(r):
        b = bytearray(a)
        if not b:
            return bytes(b)
        i, j = r.choice([0, 1, r.randrange(len(b)), len(b) - 1]) % len(b), r.randrange(len(b))
        c = r.randrange(8)
        if c == 0:
            b[i] ^= 0x80
        elif c == 1:
            b[i] ^= 1 << r.randrange(8)
        elif c == 2:
            b[i] = (b[i] + r.choice([1, 255])) % 256
        elif c == 3:
            b[i], b[j] = b[j], b[i]
        elif c == 4:
            b.reverse()
        elif c == 5:
            b[i] = b[j] = 0
        elif c == 6:
            return bytes(b[j:] + b[:j])
        return bytes(b)
    return draw
