"""Every array numpy hands out uninitialised is filled with a recognisable pattern.

`np.empty` and `np.empty_like` are looked up by name at every call, from Python and from the compiled kernels alike, so
replacing them is enough.  Code that reads an element it never wrote then produces the pattern instead of whatever the
allocator happened to contain, and two patterns produce two different results.
"""
import numpy as np

PATTERN = [np.nan]
handed = [0]
_empty, _empty_like = np.empty, np.empty_like


def _fill(a):
    if isinstance(a, np.ndarray) and a.size:
        handed[0] += 1
        if a.dtype.kind in 'fc':
            a.fill(PATTERN[0])
        elif a.dtype.kind in 'iu' and a.dtype.itemsize >= 4:
            a.fill(0x7ABBCCD if np.isnan(PATTERN[0]) else 0x1234567)
    return a


def empty(*args, **kw):
    return _fill(_empty(*args, **kw))


def empty_like(*args, **kw):
    return _fill(_empty_like(*args, **kw))


def install():
    np.empty, np.empty_like = empty, empty_like
