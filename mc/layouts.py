""" Ways of holding the same numbers. """
import numpy as np


def contiguous(a):
    return np.array(a)

def fortran(a):
    return np.asfortranarray(np.array(a)) if a.ndim else np.array(a)

def reverse(a):
    if not a.ndim:
        return np.array(a)
    idx = (slice(None, None, -1),) * a.ndim
    return np.array(a[idx])[idx]

def reverse_last(a):
    return np.array(a[..., ::-1])[..., ::-1] if a.ndim else np.array(a)

def reverse_first(a):
    return np.array(a[::-1])[::-1] if a.ndim else np.array(a)

def strided_last(a):
    if not a.ndim:
        return np.array(a)
    big = np.full(a.shape[:-1] + (2 * a.shape[-1] + 1,), 777.25, a.dtype)
    big[..., 1::2][..., :a.shape[-1]] = a
    return big[..., 1::2][..., :a.shape[-1]]

def strided_first(a):
    if not a.ndim:
        return np.array(a)
    big = np.full((3 * a.shape[0] + 1,) + a.shape[1:], -55.5, a.dtype)
    big[1::3][:a.shape[0]] = a
    return big[1::3][:a.shape[0]]

def moved(a):
    """ last axis stored first """
    return np.moveaxis(np.array(np.moveaxis(a, -1, 0)), 0, -1) if a.ndim > 1 else np.array(a)

def swapped_axes(a):
    return np.array(a.swapaxes(0, -1)).swapaxes(0, -1) if a.ndim > 1 else np.array(a)

def subarray(a):
    if not a.ndim:
        return np.array(a)
    big = np.full(tuple(n + 3 for n in a.shape), 1e77, a.dtype)
    view = big[tuple(slice(2, 2 + n) for n in a.shape)]
    view[...] = a
    return view

def readonly(a):
    a = np.array(a)
    a.flags.writeable = False
    return a

def byteswapped(a):
    return np.array(a, dtype=a.dtype.newbyteorder())

def misaligned(a):
    raw = np.zeros(a.nbytes + 1, "u1")
    view = raw[1:].view(a.dtype).reshape(a.shape) if a.size else np.array(a)
    view[...] = a
    return view

def record(a):
    rec = np.zeros(a.shape, dtype=[("x", "i2"), ("v", a.dtype), ("y", "f4")])
    rec["v"] = a
    return rec["v"]

def nested_list(a):
    return a.tolist()

def nested_tuple(a):
    conv = lambda v: tuple(conv(x) for x in v) if isinstance(v, list) else v
    return conv(a.tolist())

def list_of_arrays(a):
    return [np.array(x) for x in a] if a.ndim else np.array(a)

def float32(a):
    return a.astype(np.float32)

def float16(a):
    return a.astype(np.float16)

def int64(a):
    return a.astype(np.int64)

def int32(a):
    return a.astype(np.int32)

def int16(a):
    return a.astype(np.int16)

def uint8(a):
    return a.astype(np.uint8)

class Sub(np.ndarray):
    pass

def subclass(a):
    return np.array(a).view(Sub)


EXACT = [contiguous, fortran, reverse, reverse_last, reverse_first, strided_last, strided_first, moved,
         swapped_axes, subarray, readonly, byteswapped, misaligned, record, nested_list, nested_tuple,
         list_of_arrays, subclass]
ROUNDED = {"float32": float32, "float16": float16, "int64": int64, "int32": int32, "int16": int16, "uint8": uint8}
BY_NAME = {f.__name__: f for f in EXACT}
BY_NAME.update(ROUNDED)
