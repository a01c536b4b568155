"""Models of the libraries the code depends on.  Everything here is trusted; each model
registers itself with `trust` when it is used, and the evidence lists those that were."""
import binascii
import hashlib
import io
import math
import struct as _struct
import sys as _sys
import fractions
import decimal
import z3
from .core import *
from . import ropes as R
from .values import *
from . import builtins_ as BI
from .builtins_ import trust, NotConcrete, native_call, uf

f_sha = z3.Function('sha256', BS, BS)
f_rmd = z3.Function('ripemd160', BS, BS)
_h = {'sha256': (f_sha, 32), 'ripemd160': (f_rmd, 20)}
for _n, _l in (('sha1', 20), ('md5', 16), ('sha512', 64), ('sha224', 28), ('sha384', 48), ('sha3_256', 32), ('blake2b', 64)):
    _h[_n] = (z3.Function(_n, BS, BS), _l)

P256 = (115792089210356248762697446949407573530086143415290314195533631308867097853951,
        115792089210356248762697446949407573529996955224135760342422259061068512044369,
        115792089210356248762697446949407573530086143415290314195533631308867097853948,
        41058363725152142129326129780047268409114441015993725554835256314039467401291,
        48439561293906451759052585252797914202762949526041995844080717082404635286 - 0,
        36134250956749795798585127919587881956611106672985015071877198253568414405109)
P256 = P256[:4] + (0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,
                   0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5)


def sub(atom, n, ascii=False):
    C().fact(R.blen(atom) == zint(n))
    return SBytes((R.Sub(atom, 0, n, 1, ascii),))


def needbytes(v, what='a bytes-like object is required'):
    if not is_bytes(v):
        if isinstance(v, (Opaque, Poison)):
            raise Unsupported('unknown value')
        raise_(TypeError, what)
    return rope(v)


# ------------------------------------------------------------------ hashes

def digest(alg, r):
    e = R.concrete(r)
    if e is not None:
        try:
            return hashlib.new(alg, bytes(e)).digest()
        except ValueError:
            pass
    trust('hashlib.%s is a function of its input with a digest of fixed length' % alg)
    f, n = _h[alg]
    return sub(f(R.reify(r)), n)


def new_hash(alg):
    def f(it, a, k):
        data = a[0] if a else k.get('data', k.get('string', b''))
        if is_str(data):
            raise_(TypeError, 'Strings must be encoded before hashing')
        return HashObj(alg, needbytes(data))
    return f


def hash_attr(it, o, name):
    if name == 'update':
        def f(it, a, k):
            if is_str(a[0]):
                raise_(TypeError, 'Strings must be encoded before hashing')
            o.rope = R.rcat(o.rope, needbytes(a[0]))
        return NativeFn(name, f)
    if name == 'digest':
        return NativeFn(name, lambda it, a, k: digest(o.alg, o.rope))
    if name == 'hexdigest':
        return NativeFn(name, lambda it, a, k: mkstr(R.mk((R.Hx(rope(digest(o.alg, o.rope))),))))
    if name == 'copy':
        return NativeFn(name, lambda it, a, k: HashObj(o.alg, o.rope))
    if name == 'digest_size':
        return _h[o.alg][1]
    if name == 'name':
        return o.alg
    return None


def hashlib_new(it, a, k):
    if not isinstance(a[0], str):
        raise Unsupported('hash name')
    alg = a[0].lower().replace('-', '')
    if alg not in _h:
        try:
            hashlib.new(alg)
        except ValueError as e:
            raise_(ValueError, str(e))
        raise Unsupported('hash ' + alg)
    return new_hash(alg)(it, a[1:], k)


# ------------------------------------------------------------------ streams

def stream_attr(it, o, name):
    def chk():
        if o.closed:
            raise_(ValueError, 'I/O operation on closed file.')

    def read(it, a, k):
        chk()
        n = a[0] if a else k.get('size', -1)
        total = R.rlen(o.rope)
        avail = R.lsub(total, o.pos)
        if not R.le(0, avail) and not (isinstance(avail, int) and avail >= 0):
            if isinstance(avail, int) or C().branch(zint(avail) < 0):
                return b''
        if n is None:
            take = avail
        else:
            if not is_int(n):
                raise_(TypeError, 'argument should be integer or None')
            n = iterm(n)
            if isinstance(n, int) and n >= 2 ** 63 or (is_term(n) and not R.lt(n, 2 ** 63) and C().branch(n >= 2 ** 63)):
                raise_(OverflowError, 'Python int too large to convert to C ssize_t')
            if isinstance(n, int):
                neg = n < 0
            else:
                neg = False if R.le(0, n) else C().branch(n < 0)
            if neg:
                take = avail
            elif R.le(n, avail) or (not R.le(avail, n) and C().branch(zint(n) <= zint(avail))):
                take = n
            else:
                take = avail
        r = R.rslice(o.rope, o.pos, take)
        o.pos = R.ladd(o.pos, take)
        return mkbytes(r)

    def write(it, a, k):
        chk()
        r = needbytes(a[0])
        n, total = R.rlen(r), R.rlen(o.rope)
        if isinstance(n, int) and n == 0:
            return 0
        if R.eq(o.pos, total):
            o.rope = R.rcat(o.rope, r)
        elif R.le(total, o.pos):
            o.rope = R.rcat(R.rcat(o.rope, R.mk((R.Rep(0, R.lsub(o.pos, total)),))), r)
        else:
            end = R.ladd(o.pos, n)
            head = R.rslice(o.rope, 0, o.pos)
            if R.le(total, end) or (not R.lt(end, total) and C().branch(zint(total) <= zint(end))):
                o.rope = R.rcat(head, r)
            else:
                o.rope = R.rcat(R.rcat(head, r), R.rslice(o.rope, end, R.lsub(total, end)))
        o.pos = R.ladd(o.pos, n)
        return mkint(n)

    def seek(it, a, k):
        chk()
        p, wh = iterm(a[0]), (iterm(a[1]) if len(a) > 1 else 0)
        if wh == 1:
            p = R.ladd(p, o.pos)
        elif wh == 2:
            p = R.ladd(p, R.rlen(o.rope))
        if isinstance(p, int):
            if p < 0:
                raise_(ValueError, 'negative seek value')
        elif C().branch(p < 0):
            raise_(ValueError, 'negative seek value')
        o.pos = p
        return mkint(p)

    def truncate(it, a, k):
        n = iterm(a[0]) if a else o.pos
        if R.le(n, R.rlen(o.rope)):
            o.rope = R.rslice(o.rope, 0, n)
            return mkint(n)
        raise Unsupported('truncate')

    def close(it, a, k):
        o.closed = True
    fns = dict(read=read, write=write, seek=seek, truncate=truncate, close=close, read1=read,
               tell=lambda it, a, k: mkint(o.pos), getvalue=lambda it, a, k: (chk(), mkbytes(o.rope))[1],
               getbuffer=lambda it, a, k: mkbytes(o.rope), flush=lambda it, a, k: None, readable=lambda it, a, k: True,
               writable=lambda it, a, k: True, seekable=lambda it, a, k: True,
               __enter__=lambda it, a, k: o, __exit__=close)
    if name in fns:
        return NativeFn(name, fns[name])
    if name == 'closed':
        return o.closed
    return None


# ------------------------------------------------------------------ struct

_INT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False), 'l': (4, True),
        'L': (4, False), 'q': (8, True), 'Q': (8, False), 'n': (8, True), 'N': (8, False)}
f_packd = z3.Function('pack_double', FL, BS)
f_unpackd = z3.Function('unpack_double', BS, FL)
f_packf = z3.Function('pack_float', FL, BS)
f_unpackf = z3.Function('unpack_float', BS, FL)
f_isf32 = z3.Function('is_float32', FL, B)


def parse_fmt(it, fmt):
    """[(code, count)] and endianness"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if isinstance(fmt, str):
        little, std = True, False
        f = fmt.strip()
        if f and f[0] in '<>=!@':
            little = f[0] in '<=@'
            std = f[0] in '<>=!'
            f = f[1:]
        items = []
        num = ''
        for ch in f:
            if ch.isdigit():
                num += ch
                continue
            if ch.isspace():
                continue
            if ch in 'sp':
                items.append((ch, int(num) if num else 1))
            elif ch in _INT or ch in '?cfdxe':
                items.extend([(ch, 1)] * (int(num) if num else 1))
            else:
                raise_(_struct.error, 'bad char in struct format')
            num = ''
        if num:
            raise_(_struct.error, 'repeat count given without format specifier')
        if not std and any(c in 'lLnN' for c, _ in items):
            raise Unsupported('native-size struct format')
        if not std and len(items) > 1 and any(c in _INT and _INT[c][0] > 1 or c in 'fd' for c, _ in items):
            raise Unsupported('native alignment')
        return items, little
    if is_str(fmt):
        r = rope(fmt)
        if len(r) == 2 and isinstance(r[0], R.Num) and r[0].kind == 'd' and R.concrete((r[1],)) == (115,):
            v = r[0].v
            if is_term(v) and not R.le(0, v) and C().branch(v < 0):
                raise_(_struct.error, 'bad char in struct format')
            if is_term(v) and not R.lt(v, 2 ** 63) and C().branch(v >= 2 ** 63):
                raise_(_struct.error, 'overflow in item count')
            return [('s', v)], True
        raise Unsupported('symbolic struct format')
    raise_(TypeError, 'Struct() argument 1 must be a str or bytes object')


def fmt_size(items):
    n = 0
    for c, k in items:
        n = R.ladd(n, k if c in 'sp' else _INT[c][0] if c in _INT else {'?': 1, 'c': 1, 'x': 1, 'f': 4, 'd': 8, 'e': 2}[c])
    return n


def s_pack(it, a, k):
    items, little = parse_fmt(it, a[0])
    vals = list(a[1:])
    if len(vals) != len([1 for c, n in items if c != 'x']):
        raise_(_struct.error, 'pack expected %d items for packing' % len(items))
    trust('struct.pack/unpack: the documented fixed-width encodings')
    out = ()
    for c, n in items:
        if c == 'x':
            out = R.rcat(out, R.lit(b'\0'))
            continue
        v = vals.pop(0)
        if c in _INT:
            w, sg = _INT[c]
            if isinstance(v, Obj) and it.lookup_cls(v.cls, '__index__') is not None:
                v = it.call(it.bind(it.lookup_cls(v.cls, '__index__'), v), [], {})
            if not is_int(v):
                raise_(_struct.error, 'required argument is not an integer')
            t = iterm(v)
            lo, hi = (-(256 ** w) // 2, 256 ** w // 2 - 1) if sg else (0, 256 ** w - 1)
            if isinstance(t, int):
                bad = not lo <= t <= hi
            else:
                bad = C().branch(Or(t < lo, t > hi))
            if bad:
                raise_(_struct.error, 'argument out of range')
            u = t
            if sg:
                if isinstance(t, int):
                    u = t % (256 ** w)
                elif R.le(0, t):
                    u = t
                else:
                    u = simp(z3.If(t >= 0, t, t + 256 ** w))
                    if is_term(u):
                        C().fact(And(u >= 0, u < 256 ** w))
            out = R.rcat(out, BI.int_rope(u, w, little))
        elif c == '?':
            f = it.truth_formula(v)
            out = R.rcat(out, R.mk((R.El(1 if f is True else 0 if f is False else z3.If(f, z3.IntVal(1), z3.IntVal(0))),)))
        elif c == 'c':
            if not is_bytes(v) or isinstance(v, ByteArray) or not length_is(rope(v), 1):
                raise_(_struct.error, 'char format requires a bytes object of length 1')
            out = R.rcat(out, rope(v))
        elif c == 's':
            if not is_bytes(v):
                raise_(_struct.error, "argument for 's' must be a bytes object")
            r = rope(v)
            L = R.rlen(r)
            if R.le(n, L) or (not R.le(L, n) and C().branch(zint(n) <= zint(L))):
                r = R.rslice(r, 0, n)
            else:
                r = R.rcat(r, R.mk((R.Rep(0, R.lsub(n, L)),)))
            out = R.rcat(out, r)
        elif c in 'fd':
            if isinstance(v, float) or (isinstance(v, int) and not isinstance(v, bool)):
                try:
                    b = _struct.pack(('<' if little else '>') + c, v)
                except Exception as e:
                    raise_(type(e), str(e))
                out = R.rcat(out, R.lit(b))
                continue
            if not (isinstance(v, (SFloat, float)) or is_int(v)):
                raise_(_struct.error, 'required argument is not a float')
            if not isinstance(v, (SFloat, float)):
                v = BI.make_float(it, [v])
            t = BI.float_term(v)
            if c == 'd':
                b = f_packd(t)
                C().fact(f_unpackd(b) == t)
                r = rope(sub(b, 8))
            else:
                if not C().branch(uf(BI.f_u8, 'float32_fits', FL, B)(t)):
                    raise_(OverflowError, 'float too large to pack with f format')
                b = f_packf(t)
                C().fact(f_isf32(f_unpackf(b)))
                C().fact(Implies(f_isf32(t), f_unpackf(b) == t))
                r = rope(sub(b, 4))
            out = R.rcat(out, r if little else R.rrev(r))
        else:
            raise Unsupported('struct code ' + c)
    return mkbytes(out)


def length_is(r, n):
    L = R.rlen(r)
    if isinstance(L, int):
        return L == n
    return C().branch(L == n)


def s_unpack(it, a, k):
    items, little = parse_fmt(it, a[0])
    data = needbytes(a[1])
    size = fmt_size(items)
    trust('struct.pack/unpack: the documented fixed-width encodings')
    L = R.rlen(data)
    if not R.eq(L, size) and not C().branch(zint(L) == zint(size)):
        raise_(_struct.error, 'unpack requires a buffer of the size of the format')
    out = []
    pos = 0
    for c, n in items:
        w = fmt_size([(c, n)])
        r = R.rslice(data, pos, w)
        pos = R.ladd(pos, w)
        if c == 'x':
            continue
        if c in _INT:
            if not little:
                r = R.rrev(r)
            e = R.concrete(r)
            if e is not None:
                out.append(int.from_bytes(bytes(e), 'little', signed=_INT[c][1]))
                continue
            u = BI.le_value(r, False)
            if _INT[c][1]:
                full = 256 ** w
                u = unsign(u, full)
            out.append(mkint(u))
        elif c == '?':
            out.append(mkbool(zint(R.rat(r, 0)) != 0))
        elif c in 'cs':
            out.append(mkbytes(r))
        elif c in 'fd':
            e = R.concrete(r)
            if e is not None:
                out.append(_struct.unpack(('<' if little else '>') + c, bytes(e))[0])
                continue
            if not little:
                r = R.rrev(r)
            b = R.reify(r)
            t = (f_unpackd if c == 'd' else f_unpackf)(b)
            if c == 'f':
                C().fact(f_isf32(t))
                C().fact(uf(BI.f_u8, 'float32_fits', FL, B)(t))
            out.append(SFloat(t))
        else:
            raise Unsupported('struct code ' + c)
    return tuple(out)


def unsign(u, full):
    """two's complement: cancels with the encoding If(t >= 0, t, t + full)"""
    if isinstance(u, int):
        return u - full if u >= full // 2 else u
    if z3.is_app_of(u, z3.Z3_OP_ITE):
        c, x, y = u.children()
        d = lsimp(y - x)
        if isinstance(d, int) and d == full and C().valid(And(x >= -(full // 2), x < full // 2, c == (x >= 0))):
            return x
        d = lsimp(x - y)
        if isinstance(d, int) and d == full and C().valid(And(y >= -(full // 2), y < full // 2, c == (y < 0))):
            return y
    if R.lt(u, full // 2):
        return u
    return simp(z3.If(u >= full // 2, u - full, u))


# ------------------------------------------------------------------ binascii

def hexlify(it, a, k):
    if is_str(a[0]):
        raise_(TypeError, "a bytes-like object is required, not 'str'")
    return mkbytes(R.mk((R.Hx(needbytes(a[0])),)))


def unhexlify(it, a, k):
    v = a[0]
    if is_str(v):
        r = rope(v)
        for c in r:
            if not BI.chunk_isascii(c):
                if isinstance(c, R.Lit):
                    raise_(ValueError, 'string argument should contain only ASCII characters')
                if isinstance(c, R.El):
                    if C().branch(c.t >= 128):
                        raise_(ValueError, 'string argument should contain only ASCII characters')
                elif isinstance(c.n, int) and c.n <= 512:
                    if C().branch(Or(*[zint(c.at(i)) >= 128 for i in range(c.n)])):
                        raise_(ValueError, 'string argument should contain only ASCII characters')
                else:
                    f = uf(BI.f_u8, 'text_ascii', BS, B)
                    if not C().branch(f(R.reify((c,)))):
                        raise_(ValueError, 'string argument should contain only ASCII characters')
    else:
        r = needbytes(v, 'argument should be bytes, buffer or ASCII string')
    e = R.concrete(r)
    if e is not None:
        try:
            return binascii.unhexlify(bytes(e))
        except binascii.Error as ex:
            raise_(binascii.Error, str(ex))
    return mkbytes(BI.unhex_rope(r, binascii.Error, 'Non-hexadecimal digit found'))


# ------------------------------------------------------------------ base58

f_b58ok = z3.Function('b58_valid', BS, B)
f_b58dec = z3.Function('b58_decoded', BS, BS)
B58SET = set(R.B58A)


def scrub(it, v):
    if is_str(v):
        v = BI.encode(it, v, 'ascii')
    if not is_bytes(v) or isinstance(v, ByteArray):
        raise_(TypeError, 'a bytes-like object is required (also str)')
    return v


def b58encode(it, a, k):
    v = scrub(it, a[0])
    trust('base58.b58encode/b58decode: inverse of each other on the texts b58encode produces')
    e = R.concrete(rope(v))
    if e is not None:
        return native_b58enc(bytes(e))
    return mkbytes((R.B58(rope(v)),))


def native_b58enc(b):
    s = b.lstrip(b'\0')
    return b'1' * (len(b) - len(s)) + R._b58i(int.from_bytes(s, 'big')).encode()


def native_b58dec(t):
    n = 0
    body = t.lstrip(b'1')
    for ch in body:
        n = n * 58 + R.B58A.index(ch)
    out = b''
    while n:
        n, m = divmod(n, 256)
        out = bytes([m]) + out
    return b'\0' * (len(t) - len(body)) + out


def b58decode(it, a, k):
    v = a[0]
    if is_str(v):
        v = it.call(it.getattr(v, 'rstrip'), [], {}) if not isinstance(v, SStr) else v
    if not (is_str(v) or is_bytes(v)):
        raise_(AttributeError, 'rstrip')
    trust('base58.b58encode/b58decode: inverse of each other on the texts b58encode produces')
    if isinstance(v, (str, bytes)):
        b = v.encode('ascii') if isinstance(v, str) else v.rstrip()
        try:
            return native_b58dec(b)
        except ValueError as e:
            raise_(ValueError, str(e))
    r = rope(v)
    if len(r) == 1 and isinstance(r[0], R.B58):
        return mkbytes(r[0].rope)
    if isinstance(v, ByteArray):
        raise_(TypeError, 'a bytes-like object is required')
    t = R.reify(r)
    if is_bytes(v) and t.decl().name() in ('enc_utf-8', 'enc_ascii', 'enc_latin-1'):
        # valid base58 is ASCII: the text and its encoding are read alike
        C().fact(Implies(f_b58ok(t), And(f_b58ok(t.arg(0)), f_b58dec(t) == f_b58dec(t.arg(0)))))
    if not C().branch(f_b58ok(t)):
        if is_str(v) and not all(BI.chunk_isascii(c) for c in r) and not C().branch(uf(BI.f_u8, 'text_ascii', BS, B)(t)):
            raise_(UnicodeEncodeError, '')
        raise_(ValueError, 'substring not found')
    d = f_b58dec(t)
    n = R.blen(d)
    C().fact(And(n >= 0, n <= zint(R.rlen(r))))
    # a decoded text without surrounding white space is the text of its bytes
    C().fact(Implies(uf(BI.f_u8, 'no_trailing_space', BS, B)(t), R.b58txt(d) == t))
    return SBytes((R.Sub(d, 0, n),))


def b58encode_check(it, a, k):
    v = a[0]
    r = needbytes(v)
    h = digest('sha256', rope(digest('sha256', r)))
    return b58encode(it, [mkbytes(R.rcat(r, R.rslice(rope(h), 0, 4)))], {})


def b58decode_check(it, a, k):
    full = rope(b58decode(it, a, k))
    n = R.rlen(full)
    if R.le(4, n) or (not (isinstance(n, int)) and C().branch(n >= 4)):
        m = R.lsub(n, 4)
        body, chk = R.rslice(full, 0, m), R.rslice(full, m, 4)
    else:
        # result[:-4] is empty, result[-4:] is everything
        body, chk = (), full
    h = digest('sha256', rope(digest('sha256', body)))
    f = R.req(chk, R.rslice(rope(h), 0, 4))
    if f is False or (f is not True and not C().branch(f)):
        raise_(ValueError, 'Invalid checksum')
    return mkbytes(body)


# ------------------------------------------------------------------ bitcoin / ecdsa

def curve_key():
    return C().ghost.setdefault('curve', 'default')


def ecuf(name, *sorts):
    c = curve_key()
    tag = 'P256' if c == P256 else ('K1' if c == 'default' else 'C%x' % (hash(c) & 0xffffffff))
    return uf(BI.f_u8, 'ec_%s_%s' % (name, tag), *sorts)


def change_curve(it, a, k):
    vals = [iterm(x) for x in a]
    if len(vals) != 6:
        raise_(TypeError, 'change_curve() takes 6 arguments')
    if not all(isinstance(v, int) for v in vals):
        raise Unsupported('symbolic curve parameters')
    C().ghost['curve'] = tuple(vals)


def curve_order():
    c = curve_key()
    return c[1] if isinstance(c, tuple) else 115792089237316195423570985008687907852837564279074904382605163141518161494337


def curve_p():
    c = curve_key()
    return c[0] if isinstance(c, tuple) else 2 ** 256 - 2 ** 32 - 977


def priv_value(it, priv):
    """the integer of a private key in one of the formats of the bitcoin library"""
    if is_int(priv):
        return iterm(priv)
    if is_bytes(priv) or is_str(priv):
        r = rope(priv)
        n = R.rlen(r)
        if not isinstance(n, int):
            for m in (32, 64, 33, 66):
                if C().branch(n == m):
                    n = m
                    break
            else:
                raise Unsupported('bitcoin private key format')
        if n == 32 or n == 33:
            if is_str(priv):
                raise Unsupported('bitcoin private key format')
            return iterm(BI.int_from_bytes(it, mkbytes(R.rslice(r, 0, 32)), 'big'))
        if n == 64 or n == 66:
            if is_bytes(priv):
                # decode(priv, 16) of a bytes object fails in this library version
                raise_(AttributeError, "'bytes' hex key")
            h = BI.unhex_rope(R.rslice(r, 0, 64), ValueError, '')
            return iterm(BI.int_from_bytes(it, mkbytes(h), 'big'))
        raise Unsupported('bitcoin private key format')
    raise_(TypeError, 'private key')


def pub_point(v):
    x, y = ecuf('mulG_x', I, I)(zint(v)), ecuf('mulG_y', I, I)(zint(v))
    p = curve_p()
    C().fact(And(x >= 0, x < p, y >= 0, y < p))
    if curve_key() == P256:
        # the base point has prime order: its multiples are finite points of the curve, none of which is (0, 0)
        C().fact(Implies(And(zint(v) >= 1, zint(v) < P256[1]), Not(And(x == 0, y == 0))))
        note_pub(zint(v))
    return x, y


def privkey_to_pubkey(it, a, k):
    trust('bitcoin.privkey_to_pubkey: multiplies the base point of the curve last set with change_curve')
    v = priv_value(it, a[0])
    if isinstance(v, int) and v >= curve_order() or (is_term(v) and C().branch(v >= curve_order())):
        raise_(Exception, 'Invalid privkey')
    x, y = pub_point(v)
    n = R.rlen(rope(a[0])) if not is_int(a[0]) else None
    if n == 32:
        return mkbytes(R.rcat(R.lit(b'\x04'), R.rcat(R.mk((R.IntB(x, 32, False),)), R.mk((R.IntB(y, 32, False),)))))
    if n == 33:
        return mkbytes(R.rcat(R.mk((R.El(2 + y % 2),)), R.mk((R.IntB(x, 32, False),))))
    raise Unsupported('bitcoin public key format')


def decode_pubkey(it, a, k):
    fmt = a[1] if len(a) > 1 else k.get('formt')
    if fmt != 'bin':
        raise Unsupported('bitcoin public key format')
    trust('bitcoin.decode_pubkey: the big-endian coordinates at offsets 1 and 33')
    o = []
    for s in (slice(1, 33), slice(33, 65)):
        o.append(BI.int_from_bytes(it, BI.getitem(it, a[0], s), 'big'))
    return tuple(o)


def decompress(it, a, k):
    trust('bitcoin.decompress: the point with the given x and parity on the curve last set with change_curve')
    r = rope(a[0])
    n = R.rlen(r)
    if not isinstance(n, int):
        for m in (33, 65):
            if C().branch(n == m):
                n = m
                break
        else:
            raise Unsupported('decompress')
    if n == 65 and not is_str(a[0]) and C().branch(zint(R.rat(r, 0)) == 4):
        return a[0]
    if n == 33:
        f = zint(R.rat(r, 0))
        if not C().branch(Or(f == 2, f == 3)):
            raise_(Exception, 'Pubkey is not in recognized format')
        x = zint(iterm(BI.int_from_bytes(it, mkbytes(R.rslice(r, 1, 32)), 'big')))
        y = ecuf('decompress_y', I, I, I)(x, f % 2)
        C().fact(And(y >= 0, y <= curve_p()))
        # a decompressed point of a public key is that key
        c = C()
        if c.ghost.get('curve') == P256:
            for (d, px, py) in c.ghost.get('pubs', []):
                c.fact(Implies(And(x == px, f % 2 == py % 2, d >= 1, d < P256[1]), y == py))
        return mkbytes(R.rcat(R.lit(b'\x04'), R.rcat(R.rslice(r, 1, 32), R.mk((R.IntB(y, 32, False),)))))
    raise_(Exception, 'Pubkey is not in recognized format')


def note_pub(d):
    """the public point of d on P-256, with the facts relating it to decompression and verification"""
    c = C()
    x = uf(BI.f_u8, 'ec_mulG_x_P256', I, I)(zint(d))
    y = uf(BI.f_u8, 'ec_mulG_y_P256', I, I)(zint(d))
    p = P256[0]
    c.fact(And(x >= 0, x < p, y >= 0, y < p))
    lst = c.ghost.setdefault('pubs', [])
    if not any(q[0].get_id() == zint(d).get_id() for q in lst):
        lst.append((zint(d), x, y))
    return x, y


f_verify = z3.Function('ecdsa_verifies', BS, BS, BS, B)
f_vkok = z3.Function('valid_public_point', BS, B)


def pub_rope(d):
    x, y = note_pub(d)
    return R.rcat(R.mk((R.IntB(x, 32, False),)), R.mk((R.IntB(y, 32, False),)))


def ecdsa_raw_sign(it, a, k):
    trust('bitcoin.ecdsa_raw_sign: a signature which verifies under the public key of the private key (P-256)')
    h, priv = a
    if is_str(h):
        hb = BI.unhex_rope(rope(h), ValueError, '')
    else:
        hb = needbytes(h)
    hb = R.mk(hb)
    z = iterm(BI.int_from_bytes(it, mkbytes(hb), 'big'))
    d = priv_value(it, priv)
    r = ecuf('sign_r', I, I, I)(zint(z), zint(d))
    s = ecuf('sign_s', I, I, I)(zint(z), zint(d))
    c = C()
    c.fact(And(r >= 0, r < curve_p(), s >= 0, s <= curve_order()))
    if curve_key() == P256:
        pub = pub_rope(d)
        sig = R.rcat(R.mk((R.IntB(r, 32, False),)), R.mk((R.IntB(s, 32, False),)))
        pb, sb, db = R.reify(pub), R.reify(sig), R.reify(hb)
        c.fact(Implies(And(zint(d) >= 1, zint(d) < P256[1]), And(f_vkok(pb), f_verify(pb, sb, db))))
    return (mkint(ecuf('sign_v', I, I, I)(zint(z), zint(d))), mkint(r), mkint(s))


def vk_from_string(it, a, k):
    trust('ecdsa.VerifyingKey: accepts exactly the points of the curve; verify depends only on key, signature and digest')
    s = a[0]
    curve = a[1] if len(a) > 1 else k.get('curve', 'NIST192p')
    hf = a[2] if len(a) > 2 else k.get('hashfunc')
    if not is_bytes(s):
        raise_(AttributeError, 'string')
    r = rope(s)
    if not length_is(r, 64):
        raise_(AssertionError, '')
    name = curve.attrs['name'] if isinstance(curve, Obj) else str(curve)
    if name != 'NIST256p':
        raise Unsupported('curve ' + name)
    b = R.reify(r)
    if not C().branch(f_vkok(b)):
        raise_(AssertionError, '')
    o = Obj(VK)
    o.attrs = {'_key': mkbytes(r), '_hf': hf}
    return o


def vk_verify(it, a, k):
    o, sig, data = a[0], a[1], a[2]
    hf = a[3] if len(a) > 3 else k.get('hashfunc')
    if hf is None:
        hf = o.attrs['_hf']
    h = it.call(it.getattr(it.call(hf, [data], {}), 'digest'), [], {})
    r = needbytes(sig)
    if not length_is(r, 64):
        raise_(AssertionError, '')
    f = f_verify(R.reify(rope(o.attrs['_key'])), R.reify(r), R.reify(rope(h)))
    if C().branch(f):
        return True
    raise_(BadSig, '')


VK = UserClass('VerifyingKey', [object], {}, None)
VK.ns['from_string'] = StaticM(NativeFn('from_string', vk_from_string))
VK.ns['verify'] = NativeFn('verify', vk_verify)
BadSig = UserClass('BadSignatureError', [AssertionError], {}, None)
CURVE = UserClass('Curve', [object], {}, None)


# ------------------------------------------------------------------ AES / scrypt / unicodedata

f_aese = z3.Function('aes_ecb_encrypt', BS, BS, BS)
f_aesd = z3.Function('aes_ecb_decrypt', BS, BS, BS)
AESC = UserClass('EcbMode', [object], {}, None)


def aes_new(it, a, k):
    key = needbytes(a[0])
    mode = a[1] if len(a) > 1 else k.get('mode')
    if mode != 1:
        raise Unsupported('AES mode')
    n = R.rlen(key)
    if isinstance(n, int):
        if n not in (16, 24, 32):
            raise_(ValueError, 'Incorrect AES key length')
    elif not C().branch(Or(n == 16, n == 24, n == 32)):
        raise_(ValueError, 'Incorrect AES key length')
    o = Obj(AESC)
    o.attrs['_key'] = mkbytes(key)
    return o


def atom_rope(b, n):
    for key, (b2, rr) in C().reify_list.items():
        if b2.get_id() == b.get_id():
            return rr
    return (R.Sub(b, 0, n),)


def aes_op(enc):
    def f(it, a, k):
        trust('AES-ECB: decryption inverts encryption under the same key')
        o, data = a[0], needbytes(a[1])
        n = R.rlen(data)
        if isinstance(n, int):
            if n % 16:
                raise_(ValueError, 'Data must be aligned to block boundary in ECB mode')
        elif not C().branch(n % 16 == 0):
            raise_(ValueError, 'Data must be aligned to block boundary in ECB mode')
        kb, db = R.reify(rope(o.attrs['_key'])), R.reify(data)
        fe, fd = (f_aese, f_aesd) if enc else (f_aesd, f_aese)
        if db.decl().eq(fd) and (db.arg(0).get_id() == kb.get_id() or C().valid(db.arg(0) == kb)):
            return mkbytes(atom_rope(db.arg(1), n))
        t = fe(kb, db)
        C().fact(fd(kb, t) == db)
        return sub(t, n)
    return f


AESC.ns['encrypt'] = NativeFn('encrypt', aes_op(True))
AESC.ns['decrypt'] = NativeFn('decrypt', aes_op(False))


def scrypt_hash(it, a, k):
    trust('scrypt.hash is a function of its arguments with the requested output length')
    names = ['password', 'salt', 'N', 'r', 'p', 'buflen']
    v = dict(zip(names, a))
    v.update(k)
    pw, salt = v['password'], v['salt']
    if is_str(pw):
        pw = BI.encode(it, pw, 'utf-8')
    if is_str(salt):
        salt = BI.encode(it, salt, 'utf-8')
    ps = [iterm(v.get('N', 1 << 14)), iterm(v.get('r', 8)), iterm(v.get('p', 1)), iterm(v.get('buflen', 64))]
    if not all(isinstance(x, int) for x in ps):
        raise Unsupported('symbolic scrypt parameters')
    f = uf(BI.f_u8, 'scrypt', BS, BS, I, I, I, I, BS)
    return sub(f(R.reify(rope(pw)), R.reify(rope(salt)), *[z3.IntVal(x) for x in ps]), ps[3])


def normalize(it, a, k):
    form, s = a
    try:
        import unicodedata
        return native_call(unicodedata.normalize, [form, s], {})
    except NotConcrete:
        pass
    trust('unicodedata.normalize is a function of the text; it is idempotent')
    f = uf(BI.f_u8, 'normalize_' + form, BS, BS)
    b = R.reify(rope(s))
    if b.decl().eq(f):
        return s
    t = f(b)
    n = R.blen(t)
    C().fact(n >= 0)
    C().fact(f(t) == t)
    C().fact(uf(BI.f_u8, 'encodable_utf-8', BS, B)(t) == uf(BI.f_u8, 'encodable_utf-8', BS, B)(b))
    C().fact((n == 0) == (R.rlen(rope(s)) == 0) if is_term(R.rlen(rope(s))) else Implies(R.rlen(rope(s)) > 0, n > 0))
    return SStr((R.Sub(t, 0, n),))


# ------------------------------------------------------------------ numbers

f_fracok = z3.Function('fraction_parses', BS, B)
f_fracval = z3.Function('fraction_parsed', BS, z3.RealSort())


def make_fraction(it, a, k, cls=fractions.Fraction):
    if not a:
        return SReal(z3.RealVal(0), cls)
    if len(a) == 2 and a[1] is not None and cls is fractions.Fraction:
        return BI.real_op(it, 'Div', make_fraction(it, [a[0]], {}), make_fraction(it, [a[1]], {}))
    v = a[0]
    if isinstance(v, SReal):
        return SReal(v.t, cls)
    if is_int(v):
        return SReal(z3.ToReal(zint(iterm(v))), cls)
    if isinstance(v, (str, float)):
        try:
            q = fractions.Fraction(cls(v))
        except Exception as e:
            raise_(type(e), str(e))
        return SReal(z3.RealVal(str(q.numerator)) / z3.RealVal(str(q.denominator)), cls)
    if is_str(v):
        r = rope(v)
        if len(r) == 1 and isinstance(r[0], R.Num) and r[0].kind == 'd':
            return SReal(z3.ToReal(zint(r[0].v)), cls)
        b = R.reify(r)
        trust('Fraction(text) is the number the text denotes; str(float) denotes a number when the float is finite')
        if b.decl().name() == 'ftext':
            x = b.arg(0)
            if not C().branch(BI.f_fin(x)):
                raise_(ValueError, 'Invalid literal for Fraction')
            return SReal(BI.f_fval(x), cls)
        if not C().branch(f_fracok(b)):
            raise_(ValueError if cls is fractions.Fraction else decimal.InvalidOperation, 'Invalid literal for Fraction')
        return SReal(f_fracval(b), cls)
    if isinstance(v, SFloat):
        f = uf(BI.f_dec, 'float_exact', FL, z3.RealSort())
        if not C().branch(BI.f_fin(v.t)):
            raise_(OverflowError, 'cannot convert Infinity to integer ratio')
        return SReal(f(v.t), cls)
    raise_(TypeError, 'argument should be a string or a Rational instance')


def float_nonzero(v):
    s = BI.f_sgn(v.t)
    C().fact(And(s >= -1, s <= 1))
    C().fact(Implies(BI.f_fin(v.t), And((s < 0) == (BI.f_fval(v.t) < 0), (s > 0) == (BI.f_fval(v.t) > 0))))
    return simp(s != 0)


def math_fn(name):
    def f(it, a, k):
        try:
            return native_call(getattr(math, name), a, k)
        except NotConcrete:
            pass
        v = a[0]
        if name == 'gcd' and len(a) == 2 and is_int(a[0]) and is_int(a[1]) and C().ghost.get('ring'):
            from . import algebra
            x, y = zint(iterm(a[0])), zint(iterm(a[1]))
            if C().valid(And(x >= 0, y >= 0)):
                return mkint(algebra.gcd(x, y))
        if name in ('floor', 'ceil', 'trunc'):
            if is_int(v):
                return mkint(iterm(v))
            if isinstance(v, SFloat):
                if not C().branch(BI.f_fin(v.t)):
                    raise_(OverflowError, 'cannot convert float infinity to integer')
                return mkint({'floor': BI.f_ffloor, 'ceil': BI.f_fceil, 'trunc': BI.f_ftrunc}[name](v.t))
            if isinstance(v, SReal):
                if name == 'floor':
                    return mkint(z3.ToInt(v.t))
                if name == 'ceil':
                    return mkint(-z3.ToInt(-v.t))
                return BI.make_int(it, [v], {})
        if name in ('isnan', 'isinf', 'isfinite') and isinstance(v, SFloat):
            if name == 'isfinite':
                return mkbool(BI.f_fin(v.t))
        raise Unsupported('math.%s' % name)
    return f


def bitcount(it, a, k):
    return mkint(BI.bitlen(iterm(a[0])))


def rand_int(name):
    def f(it, a, k):
        c = C()
        t = c.fresh('random', I)
        if name == 'getrandbits':
            c.fact(And(t >= 0, t < zint(BI.pow2(iterm(a[0])))))
        elif name == 'randrange':
            lo, hi = (0, iterm(a[0])) if len(a) == 1 else (iterm(a[0]), iterm(a[1]))
            c.fact(And(t >= zint(lo), t < zint(hi)))
        elif name == 'randint':
            c.fact(And(t >= zint(iterm(a[0])), t <= zint(iterm(a[1]))))
        return mkint(t)
    return f


def rand_bytes(it, a, k):
    n = iterm(a[0])
    given = C().ghost.pop('random', None)
    if given is not None and isinstance(n, int) and R.rlen(given) == n:
        return mkbytes(given)
    b = C().fresh('random_bytes', BS)
    C().fact(R.blen(b) == zint(n))
    return SBytes((R.Sub(b, 0, n),))


def time_time(it, a, k):
    return SFloat(C().fresh('time', FL))


def null(it, a, k):
    for x in a:
        pass
    return None


def sys_exit(it, a, k):
    raise_(SystemExit, a[0] if a else None)


def op_fn(name):
    ops = dict(add='Add', sub='Sub', mul='Mult', floordiv='FloorDiv', mod='Mod', truediv='Div', xor='BitXor', and_='BitAnd', or_='BitOr',
               lshift='LShift', rshift='RShift', pow='Pow')
    cmps = dict(lt='Lt', le='LtE', gt='Gt', ge='GtE', eq='Eq', ne='NotEq')

    def f(it, a, k):
        if name in ops:
            return BI.binop(it, ops[name], a[0], a[1])
        if name in cmps:
            return BI.compare(it, cmps[name], a[0], a[1])
        if name == 'getitem':
            return BI.getitem(it, a[0], a[1])
        if name == 'neg':
            return BI.unary(it, 'USub', a[0])
        raise Unsupported('operator.' + name)
    return f


def reduce_(it, a, k):
    xs = BI.to_list(it, a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        if not xs:
            raise_(TypeError, 'reduce() of empty iterable')
        acc = xs.pop(0)
    for x in xs:
        acc = it.call(a[0], [acc, x], {})
    return BI.digit_sum(acc)


def mod(name, **ns):
    out = {}
    for k, v in ns.items():
        k = k[:-1] if k.endswith('_') and not k.startswith('_') and k not in ('and_', 'or_') else k
        out[k] = NativeFn(name + '.' + k, v) if callable(v) and not isinstance(v, (type, UserClass, NativeFn)) else v
    return ModuleV(name, out)


def chain(it, a, k):
    out = PyList()
    for x in a:
        BI.list_extend(it, out, x)
    return IterV(out)


def load(it, name):
    if name == 'vc':
        from . import vcsym
        return vcsym.module(it)
    if name == 'hashlib':
        return mod('hashlib', new=hashlib_new, **{n: new_hash(n) for n in _h if n != 'ripemd160'})
    if name == 'struct':
        return mod('struct', pack=s_pack, unpack=s_unpack, calcsize=lambda it, a, k: mkint(fmt_size(parse_fmt(it, a[0])[0])),
                   error=_struct.error, pack_into=None, unpack_from=None)
    if name == 'binascii':
        return mod('binascii', hexlify=hexlify, unhexlify=unhexlify, b2a_hex=hexlify, a2b_hex=unhexlify, Error=binascii.Error)
    if name == 'codecs':
        return mod('codecs', encode=lambda it, a, k: BI.encode(it, *a) if a[1:] != ['hex'] else hexlify(it, a[:1], k),
                   decode=lambda it, a, k: BI.decode(it, *a) if a[1:] != ['hex'] else unhexlify(it, a[:1], k))
    if name == 'base58':
        return mod('base58', b58encode=b58encode, b58decode=b58decode, b58encode_check=b58encode_check, b58decode_check=b58decode_check,
                   alphabet=R.B58A)
    if name == 'bitcoin':
        return mod('bitcoin', change_curve=change_curve, privkey_to_pubkey=privkey_to_pubkey, privtopub=privkey_to_pubkey,
                   decode_pubkey=decode_pubkey, decompress=decompress, ecdsa_raw_sign=ecdsa_raw_sign)
    if name == 'ecdsa':
        o = Obj(CURVE)
        o.attrs['name'] = 'NIST256p'
        return mod('ecdsa', NIST256p=o, VerifyingKey=VK, BadSignatureError=BadSig)
    if name == 'scrypt':
        return mod('scrypt', hash=scrypt_hash)
    if name == 'unicodedata':
        return mod('unicodedata', normalize=normalize)
    if name == 'Crypto':
        return ModuleV('Crypto', {})
    if name == 'Crypto.Cipher':
        return mod('Crypto.Cipher', AES=mod('AES', new=aes_new, MODE_ECB=1, MODE_CBC=2, block_size=16))
    if name == 'Crypto.Cipher.AES':
        return mod('AES', new=aes_new, MODE_ECB=1, MODE_CBC=2, block_size=16)
    if name == 'Crypto.Random':
        return mod('Crypto.Random', get_random_bytes=rand_bytes)
    if name == 'logzero':
        lg = mod('logger', **{n: null for n in ('info', 'debug', 'error', 'warning', 'warn', 'exception', 'critical', 'log', 'setLevel')})
        return mod('logzero', logger=lg)
    if name == 'logging':
        lg = mod('logger', **{n: null for n in ('info', 'debug', 'error', 'warning', 'warn', 'exception', 'critical', 'log', 'setLevel')})
        return mod('logging', getLogger=lambda it, a, k: lg, **{n: null for n in ('info', 'debug', 'error', 'warning', 'basicConfig')})
    if name in ('mpmath', ):
        return ModuleV('mpmath', {})
    if name == 'mpmath.libmp':
        trust_later = bitcount
        return mod('mpmath.libmp', bitcount=trust_later)
    if name == 'io':
        return mod('io', BytesIO=io.BytesIO, StringIO=io.StringIO, SEEK_SET=0, SEEK_CUR=1, SEEK_END=2)
    if name == 'sys':
        return mod('sys', maxsize=_sys.maxsize, byteorder='little', argv=PyList(['prog']), stdout=Opaque('stdout'), stderr=Opaque('stderr'),
                   exit=sys_exit, version_info=(3, 12, 3), modules=Opaque('sys.modules'), platform='linux')
    if name == 'os':
        return mod('os', urandom=rand_bytes, environ=PyDict(), getpid=rand_int('pid'), getenv=lambda it, a, k: a[1] if len(a) > 1 else None)
    if name == 'random':
        return mod('random', getrandbits=rand_int('getrandbits'), randrange=rand_int('randrange'), randint=rand_int('randint'),
                   SystemRandom=Opaque('SystemRandom'))
    if name == 'secrets':
        return mod('secrets', token_bytes=rand_bytes, randbelow=rand_int('randrange'), randbits=rand_int('getrandbits'))
    if name == 'time':
        return mod('time', time=time_time)
    if name == 'importlib':
        return mod('importlib', import_module=lambda it, a, k: load_sym(it, a[0]))
    if name == 'math':
        return mod('math', **{n: math_fn(n) for n in ('floor', 'ceil', 'trunc', 'isnan', 'isinf', 'isfinite', 'log', 'log2', 'sqrt', 'gcd',
                                                      'pow', 'fabs', 'log10', 'isqrt')}, inf=math.inf, nan=math.nan, pi=math.pi)
    if name == 'fractions':
        return mod('fractions', Fraction=fractions.Fraction)
    if name == 'decimal':
        return mod('decimal', Decimal=decimal.Decimal, InvalidOperation=decimal.InvalidOperation, ROUND_DOWN='ROUND_DOWN',
                   ROUND_HALF_UP='ROUND_HALF_UP', getcontext=lambda it, a, k: Opaque('decimal context'))
    if name == 'numbers':
        import numbers
        return ModuleV('numbers', {n: getattr(numbers, n) for n in ('Number', 'Integral', 'Real', 'Rational', 'Complex')})
    if name == 'operator':
        return mod('operator', **{n: op_fn(n) for n in ('add', 'sub', 'mul', 'floordiv', 'mod', 'truediv', 'xor', 'and_', 'or_', 'lshift',
                                                        'rshift', 'pow', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'getitem', 'neg')})
    if name == 'typing':
        return ModuleV('typing', {n: Opaque('typing') for n in ('List', 'Dict', 'Optional', 'Union', 'Any', 'Tuple', 'Callable', 'Iterable',
                                                                'Set', 'Type', 'TYPE_CHECKING')})
    if name == 'argparse':
        return mod('argparse', ArgumentParser=AP, Namespace=NSP)
    if name == 'json':
        return mod('json', dumps=json_dumps, loads=json_loads)
    if name in ('inspect', 'abc', 'warnings', 'traceback', 'string', 'enum', 'ctypes', 'array', 're'):
        return lazy(name)
    return None


def load_sym(it, n):
    if not isinstance(n, str):
        raise Unsupported('import of an unknown module')
    return it.load(n)


# ------------------------------------------------------------------ argparse, json

AP = UserClass('ArgumentParser', [object], {}, None)
NSP = UserClass('Namespace', [object], {}, None)


def ap_init(it, a, k):
    a[0].attrs['_init'] = k
    a[0].attrs['_adds'] = []
    return None


def ap_add(it, a, k):
    if 'choices' in k or k.get('type') not in (None, str):
        raise Unsupported('argparse with a type or choices')
    a[0].attrs['_adds'] = a[0].attrs['_adds'] + [(tuple(a[1:]), dict(k))]
    return None


def pyval(v):
    """a concrete value of the interpreter as a Python value"""
    if isinstance(v, PyList):
        return [pyval(x) for x in v.items]
    if isinstance(v, tuple):
        return tuple(pyval(x) for x in v)
    if v is None or isinstance(v, (str, int, bytes, float, type)):
        return v
    raise Unsupported('argparse option')


def ap_real(o):
    import argparse
    k = {n: pyval(v) for n, v in o.attrs['_init'].items()}
    k.setdefault('prog', 'prog')
    p = argparse.ArgumentParser(**k)
    for a, kk in o.attrs['_adds']:
        p.add_argument(*[pyval(x) for x in a], **{n: pyval(v) for n, v in kk.items()})
    return p


def ap_parse(it, a, k):
    import contextlib
    o = a[0]
    argv = a[1] if len(a) > 1 else k.get('args')
    if argv is None:
        argv = PyList(it.load('sys').ns['argv'].items[1:])
    vals = BI.to_list(it, argv)
    trust('argparse: a text which does not start with - is taken as a value, unchanged')
    hold, put = {}, []
    for i, v in enumerate(vals):
        if isinstance(v, str):
            put.append(v)
            continue
        r = rope(v)
        n = R.rlen(r)
        if not C().valid(zint(n) >= 1) or not C().valid(zint(R.rat(r, 0)) != 45):
            raise Unsupported('a command line argument which may be an option')
        hold['\ue000%d\ue001' % i] = v
        put.append('\ue000%d\ue001' % i)
    out, err = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            res = ap_real(o).parse_args(put)
    except SystemExit as e:
        note_out(out.getvalue())
        raise_(SystemExit, e.code)

    def back(v):
        if isinstance(v, str):
            if v in hold:
                return hold[v]
            if '\ue000' in v:
                raise Unsupported('argparse splits a value')
            return v
        if isinstance(v, list):
            return PyList([back(x) for x in v])
        if v is None or isinstance(v, (bool, int)):
            return v
        raise Unsupported('argparse value')
    ns = Obj(NSP)
    for n, v in vars(res).items():
        ns.attrs[n] = back(v)
    return ns


def note_out(t):
    c = C()
    if t and c.ghost.get('stdout') is not None:
        c.ghost['stdout'] = c.ghost['stdout'] + [t]


def ap_help(it, a, k):
    f = a[1] if len(a) > 1 else k.get('file')
    t = ap_real(a[0]).format_help()
    if f is None or isinstance(f, Opaque) and f.why == 'stdout':
        note_out(t)
    return None


AP.ns['__init__'] = NativeFn('__init__', ap_init)
AP.ns['add_argument'] = NativeFn('add_argument', ap_add)
AP.ns['parse_args'] = NativeFn('parse_args', ap_parse)
AP.ns['print_help'] = NativeFn('print_help', ap_help)
AP.ns['print_usage'] = NativeFn('print_usage', lambda it, a, k: None)


def json_dumps(it, a, k):
    import json
    try:
        return native_call(json.dumps, a, k)
    except NotConcrete:
        pass
    trust('json.loads(json.dumps(x)) is x, for dicts, lists, texts, integers')
    b = C().fresh('json', BS)
    C().fact(R.blen(b) >= 2)
    C().memo.setdefault('json', {})[b.get_id()] = (b, a[0])
    C().fact(zint(R.atom_at(b, 0)) != 32)
    C().fact(zint(R.atom_at(b, R.lsub(R.blen(b), 1))) != 32)
    return SStr((R.Sub(b, 0, R.blen(b)),))


def json_loads(it, a, k):
    import json
    try:
        return native_call(json.loads, a, k)
    except NotConcrete:
        pass
    r = rope(a[0])
    while r and isinstance(r[-1], R.Lit) and all(x in (10, 32) for x in r[-1].elems):
        r = r[:-1]
    if len(r) == 1 and isinstance(r[0], R.Sub):
        e = C().memo.get('json', {}).get(r[0].atom.get_id())
        if e is not None and R.eq(r[0].off, 0) and R.eq(r[0].n, R.blen(r[0].atom)):
            return copy_json(e[1])
    raise Unsupported('json.loads of an unknown text')


def copy_json(v):
    if isinstance(v, PyList):
        return PyList([copy_json(x) for x in v.items])
    if isinstance(v, PyDict):
        d = PyDict()
        d.d = {n: (kk, copy_json(x)) for n, (kk, x) in v.d.items()}
        return d
    if v is None or is_str(v) or is_int(v):
        return v
    raise Unsupported('json of a %s' % type(v).__name__)


class LazyNS(dict):
    def __init__(self, name):
        dict.__init__(self)
        self.modname = name

    def real(self):
        import importlib
        return importlib.import_module(self.modname)

    def __contains__(self, k):
        return dict.__contains__(self, k) or hasattr(self.real(), k)

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        v = getattr(self.real(), k)
        if isinstance(v, (int, float, str, bytes)):
            return v

        def f(it, a, kw):
            try:
                return native_call(v, a, kw)
            except NotConcrete:
                raise Unsupported('%s.%s' % (self.modname, k))
        return NativeFn(self.modname + '.' + k, f)

    def get(self, k, d=None):
        return self[k] if k in self else d


def lazy(name):
    m = ModuleV(name, LazyNS(name))
    return m


def load_native(it, name):
    return None


def type_attr(it, t, name):
    if t is fractions.Fraction or t is decimal.Decimal:
        if name in ('from_float', 'from_decimal'):
            return NativeFn(name, lambda it, a, k: make_fraction(it, a, k, t))
    return None


def construct(it, t, a, k):
    if t is io.BytesIO:
        r = needbytes(a[0]) if a and a[0] is not None else (needbytes(k['initial_bytes']) if k.get('initial_bytes') is not None else ())
        return Stream(r, 0)
    if t is fractions.Fraction:
        return make_fraction(it, a, k)
    if t is decimal.Decimal:
        return make_fraction(it, a, k, decimal.Decimal)
    return None
