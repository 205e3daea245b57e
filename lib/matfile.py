"""Weight files as MIR writes them (eckit streams), written and read independently."""

import struct

import numpy as np

LONG = 10
INT = 5
BLOB = 21


def _ulong(n):
    return struct.pack("!BL", LONG, n)


def _blob(b):
    return struct.pack("!BQ", BLOB, len(b)) + b


def encode(shape, indptr, indices, data, little=True, scalar=8, **override):
    """override: rows, cols, nnz, index_size, scalar_size, size_size, little_flag"""
    o = "<" if little else ">"
    f = override.get
    return b"".join(
        [
            _ulong(f("rows", shape[0])),
            _ulong(f("cols", shape[1])),
            _ulong(f("nnz", len(data))),
            struct.pack("!BL", INT, f("little_flag", int(little))),
            _ulong(f("index_size", 4)),
            _ulong(f("scalar_size", scalar)),
            _ulong(f("size_size", 8)),
            _blob(np.asarray(indptr).astype(o + "u4").tobytes()),
            _blob(np.asarray(indices).astype(o + "u4").tobytes()),
            _blob(np.asarray(data).astype(f"{o}f{scalar}").tobytes()),
        ]
    )


def of(m, **kwargs):
    return encode(m.shape, m.indptr, m.indices, m.data, **kwargs)


def decode(b):
    """(shape, rows, cols, values) of the elements"""
    pos = 0
    head = []
    for tag in (LONG, LONG, LONG, INT, LONG, LONG, LONG):
        t, n = struct.unpack_from("!BL", b, pos)
        assert t == tag
        head.append(n)
        pos += 5
    blobs = []
    for _ in range(3):
        t, n = struct.unpack_from("!BQ", b, pos)
        assert t == BLOB
        pos += 9
        blobs.append(b[pos : pos + n])
        pos += n
    rows, cols, nnz, little, isize, ssize, _ = head
    o = "<" if little else ">"
    indptr = np.frombuffer(blobs[0], f"{o}u{isize}").astype(np.int64)
    indices = np.frombuffer(blobs[1], f"{o}u{isize}").astype(np.int64)
    data = np.frombuffer(blobs[2], f"{o}f{ssize}").astype(float)
    assert nnz == len(data) == len(indices) == indptr[-1]
    return (rows, cols), np.repeat(np.arange(rows), np.diff(indptr)), indices, data


def elements(shape, rows, cols, values):
    """The matrix in an order that does not depend on how it is stored; explicit zeros are left out"""
    rows, cols, values = np.asarray(rows), np.asarray(cols), np.asarray(values, dtype=float)
    keep = values != 0
    rows, cols, values = rows[keep], cols[keep], values[keep]
    i = np.lexsort((cols, rows))
    return tuple(shape), rows[i].tolist(), cols[i].tolist(), values[i].tobytes()


def elements_of(z):
    c = z.tocoo()
    r, k = c.coords if hasattr(c, "coords") else (c.row, c.col)
    return elements(z.shape, r, k, c.data)
