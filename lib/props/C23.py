"""Sparse helpers do to a sparse matrix what their names say, whatever its pattern."""
import numpy as np
import scipy.sparse as sps
import gen

RULE = ('random sparse matrices of 1..120 rows and columns (float, complex, integer; empty rows, full rows, unsorted indices, stored zeros, '
        'duplicated entries summed, matrix and array classes) under every row/column deletion, appending, permutation, removal of small '
        'entries, structured construction (Toeplitz, Hankel, conversion) and boundary-row helper, against the same edit of the dense '
        'matrix; sequences of edits; distinct by helper, shape, density, type')


def spm(rng, m=None, n=None, fmt='csr', dtype=None):
    m = int(rng.integers(1, 40)) if m is None else m
    n = int(rng.integers(1, 40)) if n is None else n
    dens = float(rng.choice([0, .02, .1, .3, .7, 1]))
    D = rng.standard_normal((m, n)) * (rng.random((m, n)) < dens)
    k = int(rng.integers(4)) if dtype is None else 3
    if k == 0:
        D = D + 1j * rng.standard_normal((m, n)) * (D != 0)
    elif k == 1:
        D = np.round(3 * D)
    if m > 1 and rng.random() < .3:
        D[int(rng.integers(m))] = 0
    if n > 1 and rng.random() < .3:
        D[:, int(rng.integers(n))] = 0
    cls = {'csr': (sps.csr_matrix, sps.csr_array), 'csc': (sps.csc_matrix, sps.csc_array)}[fmt][int(rng.random() < .5)]
    S = cls(D)
    if rng.random() < .3 and S.nnz > 2:      # the same entries in another storage order within each row
        for i in range(len(S.indptr) - 1):
            s = slice(S.indptr[i], S.indptr[i + 1])
            p = rng.permutation(s.stop - s.start)
            S.indices[s] = S.indices[s][p]
            S.data[s] = S.data[s][p]
        S.has_sorted_indices = False
    if rng.random() < .2 and S.nnz:          # a stored zero
        q = int(rng.integers(S.nnz))
        S.data[q] = 0
        D = np.asarray(S.toarray())
    return S, D.copy()


def ok(c, label, S, D, fmt=None):
    c.true(label + ': shape', tuple(S.shape) == D.shape, '%s instead of %s' % (S.shape, D.shape))
    if fmt:
        c.true(label + ': format', S.format == fmt, S.format)
    c.true(label + ': index arrays', len(S.indptr) == (S.shape[0] if S.format == 'csr' else S.shape[1]) + 1 and S.indptr[0] == 0
           and S.indptr[-1] == len(S.data) == len(S.indices) and np.all(np.diff(S.indptr) >= 0) if S.format in ('csr', 'csc') else True)
    c.true(label, np.array_equal(np.asarray(S.toarray()), D), 'first difference at %s' % (np.argwhere(np.asarray(S.toarray()) != D)[:1].tolist(),)
           if tuple(S.shape) == D.shape else 'shape')


def rows(c):
    from funpy.colloc.sparse.csr import csr_vappend, delete_row_csr, delete_rows_csr, flip_rows
    rng = c.rng
    S, D = spm(rng)
    c.describe('csr %s nnz %d' % (D.shape, S.nnz))
    for step in range(int(rng.integers(1, 6))):
        k = int(rng.integers(4))
        if k == 0 and D.shape[0] > 1:
            i = int(rng.choice([0, D.shape[0] - 1, int(rng.integers(D.shape[0]))]))
            c.do('delete_row_csr', lambda: delete_row_csr(S, i))
            D = np.delete(D, i, axis=0)
            ok(c, 'deleting row', S, D, 'csr')
        elif k == 1 and D.shape[0] > 1:
            q = int(rng.integers(0, D.shape[0]))
            idx = rng.choice(D.shape[0], q, replace=False)
            idx = [idx.tolist(), idx, set(idx.tolist()), range(int(idx[0]), int(idx[0]) + 1) if q else []][int(rng.integers(4))]
            before = S.copy()
            S2 = c.do('delete_rows_csr', lambda: delete_rows_csr(S, idx))
            c.true('delete_rows_csr leaves its argument alone', np.array_equal(S.toarray(), before.toarray()))
            keep = [i for i in range(D.shape[0]) if i not in set(int(v) for v in idx)]
            S, D = S2, D[keep]
            ok(c, 'deleting rows', S, D, 'csr')
        elif k == 2:
            p = rng.permutation(D.shape[0])
            S2 = c.do('flip_rows', lambda: flip_rows(S, p if rng.random() < .5 else list(p)))
            S, D = S2, D[p]
            ok(c, 'permuting rows', S, D, 'csr')
        else:
            T, E = spm(rng, int(rng.integers(1, 20)), D.shape[1], dtype=0)
            t0 = T.copy()
            S2 = c.do('csr_vappend', lambda: csr_vappend(S, T))
            D = np.vstack((D, E))
            S = S2
            ok(c, 'appending rows', S, D, 'csr')
            c.true('appended matrix left alone', np.array_equal(T.toarray(), t0.toarray()))
        if D.size and D.shape[0]:
            v = rng.standard_normal(D.shape[1])
            c.close('acts like the dense matrix', S @ v, D @ v, 1e-13, scale=max(1e-300, np.max(np.abs(D)) * D.shape[1] * 3 if D.size else 1))
    c.seen('rows', D.shape[0], D.shape[1])


def columns(c):
    from funpy.colloc.sparse.csc import delete_col_csc, delete_cols_csc, eliminate_zeros_csc, flip_cols
    rng = c.rng
    S, D = spm(rng, fmt='csc')
    c.describe('csc %s nnz %d' % (D.shape, S.nnz))
    for step in range(int(rng.integers(1, 6))):
        k = int(rng.integers(3))
        if k == 0 and D.shape[1] > 1:
            i = int(rng.choice([0, D.shape[1] - 1, int(rng.integers(D.shape[1]))]))
            c.do('delete_col_csc', lambda: delete_col_csc(S, i))
            D = np.delete(D, i, axis=1)
            ok(c, 'deleting column', S, D, 'csc')
        elif k == 1 and D.shape[1] > 1:
            q = int(rng.integers(1, D.shape[1]))
            idx = rng.choice(D.shape[1], q, replace=False)
            a = [idx.tolist(), idx, int(idx[0])][int(rng.integers(3))]
            S = c.do('delete_cols_csc', lambda: delete_cols_csc(S, a))
            D = np.delete(D, np.atleast_1d(a), axis=1)
            ok(c, 'deleting columns', S, D, 'csc')
        else:
            p = rng.permutation(D.shape[1])
            S = c.do('flip_cols', lambda: flip_cols(S, p if rng.random() < .5 else list(p)))
            D = D[:, p]
            ok(c, 'permuting columns', S, D, 'csc')
    c.seen('columns', D.shape[0], D.shape[1])


def small(c):
    from funpy.colloc.sparse.csr import eliminate_zeros
    from funpy.colloc.sparse.csc import eliminate_zeros_csc
    rng = c.rng
    fmt = ['csr', 'csc'][int(rng.integers(2))]
    fn = eliminate_zeros_csc if fmt == 'csc' and rng.random() < .5 else eliminate_zeros
    S, D = spm(rng, fmt=fmt)
    S = S.astype(complex if D.dtype == complex else float)
    eps = np.finfo(float).eps if rng.random() < .5 else float(10.0 ** rng.uniform(-12, -1))
    f = 10.0 ** rng.uniform(-20, 2, size=S.nnz)
    S.data = S.data * f
    # keep clear of the threshold itself
    near = np.abs(np.abs(S.data) / eps - 1) < 1e-3
    S.data[near] *= 3
    D = np.asarray(S.toarray())
    R = c.do('eliminate_zeros', lambda: fn(S) if eps == np.finfo(float).eps else fn(S, eps=eps))
    D = np.where(np.abs(D) < eps, 0, D)
    ok(c, 'removing small entries', R, D, fmt)
    c.true('no small entry is stored', R.nnz == np.count_nonzero(D))
    c.seen('small', fmt, R.shape[0], eps == np.finfo(float).eps)


def structured(c):
    import scipy.linalg as LA
    from funpy.colloc.ultraS.transform import sptoeplitz, sptoeplitz_fast, sphankel, spconvert, spconvert_inv
    rng = c.rng
    n = int(rng.choice([2, 3, 4, 5, 8, 20, 63, 98, 99, 100, 101, 128, 200]))
    dense = lambda A: np.asarray(A.toarray() if sps.issparse(A) else A)
    dens = float(rng.choice([0, .05, .3, 1]))
    col = rng.standard_normal(n) * (rng.random(n) < dens)
    row = rng.standard_normal(n) * (rng.random(n) < dens)
    if rng.random() < .3:
        col[:] = 0
        col[int(rng.integers(n))] = 2.0
        if rng.random() < .5:
            row[:] = 0
            row[int(rng.integers(1, n))] = -1.0
    if rng.random() < .3:
        col[:3] = rng.standard_normal(min(3, n))
    row[0] = col[0]
    if rng.random() < .2:
        col, row = col + 1j * col[::-1], row * (1 - 1j)
        row[0] = col[0]
    fmt = [None, 'csr', 'csc'][int(rng.integers(3))]
    c.describe('n=%d density %g %s' % (n, dens, fmt))
    A = c.do('sptoeplitz', lambda: dense(sptoeplitz(col.copy(), row.copy(), format=fmt)))
    c.true('Toeplitz', np.array_equal(A, LA.toeplitz(col, row)))
    A = c.do('sptoeplitz_fast', lambda: dense(sptoeplitz_fast(col.copy(), format=fmt)))
    sym = np.array([[col[abs(i - j)] for j in range(n)] for i in range(n)])
    c.true('symmetric Toeplitz', np.array_equal(A, sym), str(np.argwhere(A != sym)[:1].tolist()) if A.shape == sym.shape else str(A.shape))
    A = c.do('sphankel', lambda: dense(sphankel(col.copy())))
    c.true('Hankel', np.array_equal(A, LA.hankel(col)))
    lam = int(rng.integers(0, 5))
    if n >= 3:
        A = c.do('spconvert', lambda: dense(spconvert(n, lam)))
        B = c.do('spconvert_inv', lambda: dense(spconvert_inv(n, lam)))
        c.close('conversion and its inverse', A @ B, np.eye(n), 1e-12, scale=n)
        ref = np.zeros((n, n))
        for k in range(n):
            ref[k, k] = 1 if k == 0 else .5 if lam == 0 else lam / (lam + k)
            if k >= 2:
                ref[k - 2, k] = -(.5 if lam == 0 else lam / (lam + k))
        c.close('conversion', A, ref, 1e-14, scale=1)
    c.seen('structured', n, lam, dens, str(fmt))


def boundary(c):
    from funpy.colloc.tools import findNextPowerOf2, remove_bc, replace_bc, get_bc
    rng = c.rng
    m = int(rng.integers(1, 5))
    bw = int(rng.integers(0, 4))
    n = int(rng.integers(bw + 1, 40))
    a = rng.standard_normal(n * m)
    if rng.random() < .3:
        a = a + 1j
    M = a.reshape((n, m), order='F')
    b = c.do('remove_bc', lambda: remove_bc(a, m, bw))
    c.true('remove', b.shape == (n - bw, m) and np.array_equal(b, M[bw:]))
    b = c.do('get_bc', lambda: get_bc(a.real, m, bw))
    c.true('get', np.array_equal(b.reshape((bw, m), order='F'), M.real[:bw]))
    for r in (False, True):
        b = c.do('replace_bc', lambda: replace_bc(a, m, bw, reshape=r))
        ref = np.vstack((M[bw:], np.zeros((bw, m))))
        c.true('replace', np.array_equal(b, ref if r else ref.flatten(order='F')) and (b.shape == (n, m)) == (r or (n * m, ) == (n, m)))
    k = int(rng.choice([1, 2, 3, 4, 5, int(rng.integers(1, 5000)), 2 ** int(rng.integers(1, 13)), 2 ** int(rng.integers(1, 13)) + 1]))
    p = c.do('findNextPowerOf2', lambda: findNextPowerOf2(k))
    q = 2
    while q < k:
        q *= 2
    c.true('power of two', p == q, '%d -> %d' % (k, p))
    c.seen('boundary', m, bw, n)


def refused(c):
    """The wrong storage format is refused."""
    from funpy.colloc.sparse import csr, csc
    rng = c.rng
    A, _ = spm(rng, 5, 6)
    B, _ = spm(rng, 5, 6, fmt='csc')
    for name, fn, bad in (('csr_vappend', lambda s: csr.csr_vappend(s, A), B), ('csr_vappend', lambda s: csr.csr_vappend(A, s), B),
                          ('delete_row_csr', lambda s: csr.delete_row_csr(s, 1), B), ('delete_rows_csr', lambda s: csr.delete_rows_csr(s, [1]), B),
                          ('delete_col_csc', lambda s: csc.delete_col_csc(s, 1), A), ('delete_cols_csc', lambda s: csc.delete_cols_csc(s, [1]), A),
                          ('eliminate_zeros', lambda s: csr.eliminate_zeros(s), A.tocoo()), ('eliminate_zeros_csc', lambda s: csc.eliminate_zeros_csc(s), A)):
        c.raises('%s of the wrong format' % name, lambda: fn(bad))
    c.seen('refused', int(rng.integers(3)))


GROUPS = {'rows': (rows, 3500, 32000), 'columns': (columns, 3000, 28000), 'small': (small, 2500, 20000), 'structured': (structured, 2500, 20000),
          'boundary': (boundary, 2000, 12000), 'refused': (refused, 100, 240)}
