"""Specification functions, written from RP66 V1 and from the property texts (not from the code).

They are plain executable Python: the verifier interprets them like the code under verification, and a replay of a
counterexample runs them natively.  `Reject` means: the call has to be rejected with an exception (of any class).
"""
from struct import pack


class Reject(Exception):
    pass


# ---------------------------------------------------------------------------------- representation codes (Appendix B)
INT_CODES = {'SSHORT': ('>b', -2 ** 7, 2 ** 7), 'SNORM': ('>h', -2 ** 15, 2 ** 15), 'SLONG': ('>i', -2 ** 31, 2 ** 31),
             'USHORT': ('>B', 0, 2 ** 8), 'UNORM': ('>H', 0, 2 ** 16), 'ULONG': ('>I', 0, 2 ** 32)}
FLOAT_CODES = {'FSINGL': '>f', 'FDOUBL': '>d'}
CODE_NUMBERS = {'FSINGL': 2, 'FDOUBL': 7, 'SSHORT': 12, 'SNORM': 13, 'SLONG': 14, 'USHORT': 15, 'UNORM': 16, 'ULONG': 17, 'UVARI': 18,
                'IDENT': 19, 'ASCII': 20, 'DTIME': 21, 'OBNAME': 23, 'OBJREF': 24, 'STATUS': 26}


def integer(code, value):
    fmt, lo, hi = INT_CODES[code]
    if value < lo or value >= hi:
        raise Reject('out of range')
    return pack(fmt, value)


def ushort(value):
    if value < 0 or value >= 256:
        raise Reject('out of range')
    return pack('>B', value)


def unorm(value):
    if value < 0 or value >= 65536:
        raise Reject('out of range')
    return pack('>H', value)


def uvari(value):
    if value < 0 or value >= 2 ** 30:
        raise Reject('out of range')
    if value < 2 ** 7:
        return pack('>B', value)
    if value < 2 ** 14:
        return pack('>H', 0x8000 + value)
    return pack('>I', 0xC0000000 + value)


def text_bytes(value):
    try:
        return value.encode('ascii')
    except UnicodeEncodeError:
        raise Reject('not ASCII')


def ident(value):
    if len(value) > 255:
        raise Reject('too long')
    return ushort(len(value)) + text_bytes(value)


def ascii_text(value):
    return uvari(len(value)) + text_bytes(value)


def payload(value):
    """No-format data: the bytes as they are, text as ASCII."""
    return text_bytes(value) if isinstance(value, str) else bytes(value)


def status(value):
    if value != 0 and value != 1:
        raise Reject('STATUS is 0 or 1')
    return ushort(value)


def obname(origin, copy, name):
    if origin is None:
        raise Reject('no origin reference')
    return uvari(origin) + ushort(copy) + ident(name)


def objref(set_type, origin, copy, name):
    return ident(set_type) + obname(origin, copy, name)


def floating(code, value):
    try:
        return pack(FLOAT_CODES[code], value)
    except OverflowError:
        raise Reject('out of range')


# decoders (Appendix B), for the round-trip lemmas: value, number of bytes consumed
def read_uvari(b):
    if b[0] < 128:
        return b[0], 1
    if b[0] < 192:
        return (b[0] - 128) * 256 + b[1], 2
    return (((b[0] - 192) * 256 + b[1]) * 256 + b[2]) * 256 + b[3], 4


def read_ident(b):
    n = b[0]
    return b[1:1 + n], 1 + n


def read_ascii(b):
    n, k = read_uvari(b)
    return b[k:k + n], k + n
