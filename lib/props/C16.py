"""Linear solvers, determinants and null vectors are those of the matrix they were given."""
import contextlib
import io
import numpy as np
import scipy.linalg as LA
import scipy.sparse as sps

RULE = ('random matrices of dimension 1..60 with prescribed singular values (condition to 1e6, rank deficiency 0..3, scales 1e-6..1e6, '
        'permuted and sparse patterns), bordered once to four times, square, wide and Hessenberg; every solver, its adjoint, determinant, '
        'null vector and minimum norm solution against dense references; distinct by kind, size, rank, scale')


def quiet(fn):
    def g():
        with contextlib.redirect_stdout(io.StringIO()):
            return fn()
    return g


def orth(rng, n):
    return LA.qr(rng.standard_normal((n, n)))[0]


def dim(rng, lo=1):
    return int(max(lo, rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 20, 33, 60])))


def matrix(rng, m, n=None, deficit=0, cond=None, scale=None):
    """m x n matrix with known singular values, its pseudo-inverse and null vectors."""
    n = m if n is None else n
    k = min(m, n)
    cond = float(10.0 ** rng.uniform(0, 3)) if cond is None else cond
    scale = float(10.0 ** rng.choice([0, 0, 0, -6, -3, 3, 6])) if scale is None else scale
    s = np.exp(rng.uniform(0, np.log(cond), k)) / cond ** .5
    if k > 1:
        s[0], s[-1] = cond ** .5, cond ** -.5
    s = np.sort(s)[::-1] * scale
    s[k - deficit:] = 0
    u = rng.random()
    if u < .25 and m == n:      # structured: permuted diagonal / triangular with exact zeros
        P, Q = np.eye(m)[rng.permutation(m)], np.eye(m)[rng.permutation(m)]
        sg = rng.choice([-1., 1.], k)
        A = P @ np.diag(s * sg) @ Q
        U, V = P * sg[None, :], Q
        return A, U, s, V
    U, V = orth(rng, m), orth(rng, n)
    A = (U[:, :k] * s) @ V[:k]
    return A, U, s, V


def pinv(U, s, V):
    k = len(s)
    i = np.array([1 / x if x > 0 else 0.0 for x in s])
    return (V[:k].T * i) @ U[:, :k].T


def solve(c):
    from funpy.linalg import QR, QRCholesky, ExactLinearSolver
    rng = c.rng
    n = dim(rng)
    A, U, s, V = matrix(rng, n)
    x, b = rng.standard_normal(n), rng.standard_normal(n)
    Ai = pinv(U, s, V)
    k = s[0] / s[-1]
    c.describe('%d x %d, cond %.1e, scale %.1e' % (n, n, k, s[0]))
    S = LA.norm(b) / s[-1]
    q = c.do('QR', lambda: QR(A), A)
    c.close('QR solve', c.do('QR.solve', lambda: q.solve(b), A, b), Ai @ b, 1e-12 * k, scale=S)
    c.close('QR adjoint solve', c.do('QR.solve_adj', lambda: q.solve_adj(b), A, b), Ai.T @ b, 1e-12 * k, scale=S)
    p = c.do('QRCholesky', lambda: QRCholesky(A), A)
    c.close('QRCholesky solve', c.do('QRCholesky.solve', lambda: p.solve(b), A, b), Ai @ b, 1e-12 * k, scale=S)
    sg, ld = np.linalg.slogdet(A)
    if abs(ld) < 600:
        for name, o in (('QR', q), ('QRCholesky', p)):
            d = c.do(name + ' det', lambda: o.det(), A)
            c.close(name + ' determinant', np.array([float(d / (sg * np.exp(np.longdouble(ld))))]), [1.0], 1e-9 * k)
    c.true('sign of the determinant', q.det_sign() == sg, lambda: '%s %s' % (q.det_sign(), sg))
    for meth in ('lu', 'qr'):
        r = c.do('exact ' + meth, lambda: ExactLinearSolver(A, method=meth).solve(b), A, b)
        c.close('exact linear solver', r[0], Ai @ b, 1e-12 * k, scale=S)
        c.true('reports success', r[1])
    B = sps.csr_matrix(A)
    r = c.do('exact sparse', lambda: ExactLinearSolver(B, method='lu').solve(b), b)
    c.close('sparse exact linear solver', r[0], Ai @ b, 1e-11 * k, scale=S)
    pr, tf = rng.standard_normal((n, n)), (lambda v: 3 * v)
    r = c.do('exact map', lambda: ExactLinearSolver(B, method='lu', proj=lambda v: pr @ v, to_fun=tf).solve(b), b)
    c.close('mapped solution', r[0], 3 * pr @ (Ai @ b), 1e-11 * k, scale=S * 3 * LA.norm(pr))
    c.seen('solve', n, int(np.log10(k)), int(np.log10(s[0])))


def deficient(c):
    from funpy.linalg import QR, QRCholesky
    rng = c.rng
    kind = str(rng.choice(['square', 'wide', 'wide deficient']))
    n = dim(rng, 4)
    if kind == 'square':
        r = int(rng.integers(1, 4))
        A, U, s, V = matrix(rng, n, deficit=r, cond=float(10 ** rng.uniform(0, 2)))
    else:
        w = int(rng.integers(1, 4))
        A, U, s, V = matrix(rng, n, n + w, deficit=0 if kind == 'wide' else 1, cond=float(10 ** rng.uniform(0, 2)))
        r = w
    b = rng.standard_normal(n)
    nz = s[s > 0]
    k = nz[0] / nz[-1]
    c.describe('%s %s, deficiency %d, cond %.1e, scale %.1e' % (kind, A.shape, r, k, s[0]))
    p = c.do('QRCholesky', lambda: QRCholesky(A), A)
    x = c.do('pseudo-inverse', lambda: p.solve(b), A, b)
    c.true('rank', p.rank == len(nz), lambda: '%s %s' % (p.rank, len(nz)))
    c.close('pseudo-inverse solution', x, pinv(U, s, V) @ b, 1e-9 * k, scale=LA.norm(b) / nz[-1])
    if kind == 'wide' and r == 1:
        t = c.do('tangent', lambda: p.tangent_vector(), A)
        t = np.asarray(t).reshape(-1)
        c.close('tangent annihilated', A @ t, np.zeros(n), 1e-12, scale=s[0] * n)
        c.close('tangent normalised', LA.norm(t), 1.0, 1e-12)
        j = int(p.internal_embedding_parameter)
        for name, col, val in (('dropping the embedding parameter', j, p.det), ('dropping the last column', n, p.detH)):
            sg, ld = np.linalg.slogdet(np.delete(A, col, 1))
            cc = np.linalg.cond(np.delete(A, col, 1))
            if cc < 1e7 and abs(ld) < 600:
                d = c.do('determinant ' + name, lambda: val(), A)
                c.close('determinant ' + name, float(d / (sg * np.exp(np.longdouble(ld)))), 1.0, 1e-10 * cc + 1e-9)
    if kind == 'wide' and r == 1 and nz[-1] > 1e-12:
        q = c.do('QR of a wide matrix', lambda: QR(A), A)
        D = np.delete(A, int(q.C[-1]), 1)       # the column pivoted last is dropped
        sg, ld = np.linalg.slogdet(D)
        cc = np.linalg.cond(D)
        if cc < 1e7 and abs(ld) < 600:
            d = c.do('determinant of a wide matrix', lambda: q.det(), A)
            c.close('determinant of a wide matrix', float(d / (sg * np.exp(np.longdouble(ld)))), 1.0, 1e-10 * cc + 1e-9)
            c.true('determinant sign of a wide matrix', q.det_sign() == sg, lambda: '%s %s' % (q.det_sign(), sg))
    c.seen('deficient', kind, n, r, int(np.log10(s[0])))


def singular(c):
    from funpy.linalg import QR, BEM, BMatrix, right_null_vector
    from funpy.linalg.nullspace import left_null_vector, null_vector
    rng = c.rng
    n = dim(rng, 2)
    A, U, s, V = matrix(rng, n, deficit=1, cond=float(10 ** rng.uniform(0, 2)), scale=float(10.0 ** rng.choice([0, 0, 1, 2])))
    c.describe('singular %d, scale %.1e' % (n, s[0]))
    phi, psi = V[-1], U[:, -1]
    q = c.do('QR', lambda: QR(A, tol=1e-9 * s[0]), A)
    c.true('recognised as singular', q.is_singular)
    p, w = c.do('null', lambda: q.null(), A)
    for name, v, ref in (('right', p, phi), ('left', w, psi)):
        c.close('%s null vector' % name, abs(np.dot(v, ref)) / LA.norm(v), 1.0, 1e-9)
    for name, fn, ref in (('right', right_null_vector, phi), ('left', left_null_vector, psi)):
        v = c.do('%s_null_vector' % name, lambda: fn(A), A)
        c.close('%s null vector from LU' % name, [abs(np.dot(v, ref)), LA.norm(v)], [1.0, 1.0], 1e-9)
    v2 = c.do('null_vector', lambda: null_vector(A, right=True, left=True, normalize=False), A)
    for v, ref in zip(v2, (phi, psi)):
        c.close('null vectors from LU', abs(np.dot(v, ref)) / LA.norm(v), 1.0, 1e-9)
    x = rng.standard_normal(n)
    y = c.do('particular', lambda: q.particular(A @ x), A, x)
    c.close('particular solution', A @ y, A @ x, 1e-9, scale=s[0] * LA.norm(x) * 10)
    y = c.do('particular_adj', lambda: q.particular_adj(A.T @ x), A, x)
    c.close('particular solution of the adjoint', A.T @ y, A.T @ x, 1e-9, scale=s[0] * LA.norm(x) * 10)
    # the last pivot bounds the smallest singular value from above: a regular matrix is one when the tolerance is below that
    R, _, sr, _ = matrix(rng, n, cond=float(10 ** rng.uniform(0, 6)))
    tol = sr[-1] * float(rng.uniform(1e-3, .9))
    c.true('regular matrix is not singular', not c.do('QR', lambda: QR(R, tol=tol), R).is_singular, lambda: '%s %s' % (tol, sr))
    # bordered by vectors transversal to the ranges
    b, g, d = phi + .3 * rng.standard_normal(n) / n, psi + .3 * rng.standard_normal(n) / n, float(rng.standard_normal())
    F = np.block([[A, g[:, None]], [b[None, :], np.array([[d]])]])
    f = rng.standard_normal(n + 1)
    S = np.linalg.cond(F)
    B = c.do('BEM', lambda: BEM(QR(A, tol=1e-9 * s[0]), b, g, d), A, b, g)
    X = LA.solve(F, f)
    sc = LA.norm(X) + LA.norm(f)
    c.close('bordered singular', c.do('BEM.solve', lambda: B.solve(f), A, b, g, f), X, 1e-10 * S, scale=sc)
    c.close('bordered singular adjoint', c.do('BEM.solve_adj', lambda: B.solve_adj(f), A, b, g, f), LA.solve(F.T, f), 1e-10 * S, scale=sc + LA.norm(LA.solve(F.T, f)))
    M = c.do('BMatrix', quiet(lambda: BMatrix(A, b, g, d, tol=1e-9 * s[0])), A, b, g)
    c.close('BMatrix singular', c.do('BMatrix.solve', quiet(lambda: M.solve(f)), A, b, g, f), X, 1e-10 * S, scale=sc)
    t = c.do('solve_null', lambda: B.solve_null(), A, b, g)
    c.close('null vector of the wide matrix', F[:n] @ t / LA.norm(t), np.zeros(n), 1e-10, scale=s[0] * 10)
    mn = c.do('min_norm', lambda: B.min_norm(f[:n]), A, b, g, f)
    ref = LA.pinv(F[:n]) @ f[:n]
    c.close('minimum norm', mn, ref, 1e-10 * S, scale=LA.norm(ref) + LA.norm(f))
    c.seen('singular', n, int(np.log10(s[0])))


def bordered(c):
    from funpy.linalg import QR, BEM, BEMW, BMatrix
    from funpy.linalg.brd_solve import solve as lusolve
    rng = c.rng
    n, m = dim(rng), int(rng.integers(1, 5))
    # every leading block well conditioned
    G = rng.standard_normal((n + m, n + m)) * .5 / np.sqrt(n + m)
    G[:n, :n] += orth(rng, n) if rng.random() < .5 else np.diag(rng.choice([-1., 1.], n))
    G[n:, n:] += np.diag(rng.choice([-1., 1.], m) * rng.uniform(1, 2, m))
    conds = [np.linalg.cond(G[:n + i, :n + i]) for i in range(m + 1)]
    K = max(conds)
    if K > 1e5:
        c.event('skipped: ill conditioned')
        return
    A, F = G[:n, :n].copy(), G[:n + 1, :n + 1].copy()
    b, g, d = F[n, :n].copy(), F[:n, n].copy(), float(F[n, n])
    f = rng.standard_normal(n + 1)
    X, Y = LA.solve(F, f), LA.solve(F.T, f)
    c.describe('%d bordered %d times, cond %.1e' % (n, m, K))
    B = c.do('BEM', lambda: BEM(QR(A), b, g, d), A, b, g)
    tol, sc = 1e-12 * K ** 2, LA.norm(X) + LA.norm(Y) + LA.norm(f)
    c.close('bordered', c.do('BEM.solve', lambda: B.solve(f), A, b, g, f), X, tol, scale=sc)
    c.close('bordered adjoint', c.do('BEM.solve_adj', lambda: B.solve_adj(f), A, b, g, f), Y, tol, scale=sc)
    e = np.r_[np.zeros(n), 1.0]
    f0 = np.r_[f[:n], 0.0]
    c.close('bordered null', c.do('solve_null', lambda: B.solve_null(), A, b, g), LA.solve(F, e), tol, scale=sc + K)
    c.close('bordered adjoint null', c.do('solve_null_adj', lambda: B.solve_null_adj(), A, b, g), LA.solve(F.T, e), tol, scale=sc + K)
    c.close('bordered zero', c.do('solve_zero', lambda: B.solve_zero(f[:n]), A, b, g, f), LA.solve(F, f0), tol, scale=sc + K)
    c.close('bordered minimum norm', c.do('min_norm', lambda: B.min_norm(f[:n]), A, b, g, f), LA.pinv(F[:n]) @ f[:n], tol, scale=sc + K)
    c.close('bordered determinant', float(B.det() / LA.det(F)), 1.0, 1e-10 * K)
    b2, g2, d2 = b + .1 * rng.standard_normal(n) / n, g + .1 * rng.standard_normal(n) / n, d + .1
    F2 = np.block([[A, g2[:, None]], [b2[None, :], np.array([[d2]])]])
    if np.linalg.cond(F2) < 1e5:
        def upd():
            B.update_row(b2, d2)
            B.update_col(g2, d2)
            return B.solve(f)
        k2 = np.linalg.cond(F2)
        x2 = LA.solve(F2, f)
        c.close('updated border', c.do('update', upd, A, b2, g2, f), x2, 1e-12 * max(k2, K) ** 2, scale=LA.norm(x2) + LA.norm(f))
        c.close('updated border, adjoint', c.do('update', lambda: B.solve_adj(f), A, b2, g2, f), LA.solve(F2.T, f),
                1e-12 * max(k2, K) ** 2, scale=LA.norm(x2) + LA.norm(f) + LA.norm(LA.solve(F2.T, f)))
    M = c.do('BMatrix', quiet(lambda: BMatrix(A, b, g, d)), A, b, g)
    c.close('BMatrix', c.do('BMatrix.solve', quiet(lambda: M.solve(f)), A, b, g, f), X, tol, scale=sc)
    c.close('BMatrix product', M._matvec(X), f, 1e-12 * K, scale=sc)
    t = c.do('BMatrix.solve_null', quiet(lambda: M.solve_null()), A, b, g)
    c.close('BMatrix null', t, LA.solve(F, e), tol, scale=sc + K)
    c.close('bordered sparse LU', c.do('brd_solve.solve', lambda: lusolve(sps.csc_matrix(A), b, g, d, f), b, g, f), X, tol, scale=sc)
    bs, cs, ds = [G[n + i, :n + i].copy() for i in range(m)], [G[:n + i, n + i].copy() for i in range(m)], [float(G[n + i, n + i]) for i in range(m)]
    W = c.do('BEMW', lambda: BEMW(QR(A), bs, cs, ds), A, *bs, *cs)
    h = rng.standard_normal(n + m)
    XX, YY = LA.solve(G, h), LA.solve(G.T, h)
    sc = LA.norm(XX) + LA.norm(YY) + LA.norm(h)
    tol = 1e-12 * K ** 3
    c.close('repeatedly bordered', c.do('BEMW.solve', lambda: W.solve(h), A, h, *bs, *cs), XX, tol, scale=sc)
    c.close('repeatedly bordered adjoint', c.do('BEMW.solve_adj', lambda: W.solve_adj(h), A, h, *bs, *cs), YY, tol, scale=sc)
    e = np.r_[np.zeros(n + m - 1), 1.0]
    c.close('repeatedly bordered null', c.do('BEMW.solve_null', lambda: W.solve_null(), A), LA.solve(G, e), tol, scale=sc + K)
    c.close('repeatedly bordered adjoint null', c.do('BEMW.solve_null_adj', lambda: W.solve_null_adj(), A), LA.solve(G.T, e), tol, scale=sc + K)
    h0 = np.r_[h[:-1], 0.0]
    c.close('repeatedly bordered zero', c.do('BEMW.solve_zero', lambda: W.solve_zero(h[:-1]), A, h), LA.solve(G, h0), tol, scale=sc + K)
    c.close('repeatedly bordered minimum norm', c.do('BEMW.min_norm', lambda: W.min_norm(h[:-1]), A, h), LA.pinv(G[:-1]) @ h[:-1], tol, scale=sc + K)
    j = int(rng.integers(m))
    nb = bs[j] + .05 * rng.standard_normal(n + j) / (n + j)
    G2 = G.copy()
    G2[n + j, :n + j] = nb
    G2[n + j, n + j] += .05
    if max(np.linalg.cond(G2[:n + i, :n + i]) for i in range(m + 1)) < 2 * K:
        def upd():
            W.update_row(j, nb, float(G2[n + j, n + j]))
            return W.solve(h)
        c.close('repeatedly bordered, updated', c.do('BEMW.update_row', upd, A, nb, h), LA.solve(G2, h), 8 * tol, scale=sc + LA.norm(LA.solve(G2, h)))
    c.seen('bordered', n, m)


def nearly_singular(c):
    """Mixed block elimination keeps full accuracy when the block it eliminates with is almost singular."""
    from funpy.linalg import QR, BEM, BEMW
    rng = c.rng
    n, m = dim(rng, 2), int(rng.integers(1, 4))
    sg = float(10.0 ** rng.uniform(-12, -5))
    U, V = orth(rng, n), orth(rng, n)
    s = np.exp(rng.uniform(-1, 1, n))
    s[-1] = sg
    G = np.zeros((n + m, n + m))
    G[:n, :n] = (U * s) @ V
    G[n, :n], G[:n, n] = V[-1] + .3 * rng.standard_normal(n) / n, U[:, -1] + .3 * rng.standard_normal(n) / n
    G[n, n] = float(rng.standard_normal())
    for i in range(n + 1, n + m):
        G[i, :i], G[:i, i] = .3 * rng.standard_normal(i) / np.sqrt(i), .3 * rng.standard_normal(i) / np.sqrt(i)
        G[i, i] = float(rng.choice([-1., 1.]) * rng.uniform(1, 2))
    K = max(np.linalg.cond(G[:n + i, :n + i]) for i in range(1, m + 1))
    if K > 300:
        c.event('skipped: ill conditioned')
        return
    A, F = G[:n, :n].copy(), G[:n + 1, :n + 1].copy()
    b, g, d = F[n, :n].copy(), F[:n, n].copy(), float(F[n, n])
    c.describe('%d, smallest singular value %.1e, bordered %d times' % (n, sg, m))
    q = c.do('QR', lambda: QR(A), A)
    B = c.do('BEM', lambda: BEM(q, b, g, d), A, b, g)
    tol = 1e-14 * K ** 2

    def judge(label, fn, ref, tol):
        c.close(label, c.do(label, fn, A, b, g), ref, tol, scale=LA.norm(ref))
    f = rng.standard_normal(n + 1)
    e, f0 = np.r_[np.zeros(n), 1.0], np.r_[f[:n], 0.0]
    judge('nearly singular, bordered', lambda: B.solve(f), LA.solve(F, f), tol)
    judge('nearly singular, bordered adjoint', lambda: B.solve_adj(f), LA.solve(F.T, f), tol)
    judge('nearly singular, bordered null', lambda: B.solve_null(), LA.solve(F, e), tol)
    judge('nearly singular, bordered adjoint null', lambda: B.solve_null_adj(), LA.solve(F.T, e), tol)
    judge('nearly singular, bordered zero', lambda: B.solve_zero(f[:n]), LA.solve(F, f0), tol)
    judge('nearly singular, minimum norm', lambda: B.min_norm(f[:n]), LA.pinv(F[:n]) @ f[:n], 4 * tol)
    b2, g2 = b + .05 * rng.standard_normal(n) / n, g + .05 * rng.standard_normal(n) / n
    F2 = np.block([[A, g2[:, None]], [b2[None, :], np.array([[d + .1]])]])
    if np.linalg.cond(F2) < 2 * K:
        def upd():
            B.update_row(b2, d + .1)
            B.update_col(g2, d + .1)
            return B.solve(f)
        judge('nearly singular, updated', upd, LA.solve(F2, f), 4 * tol)
        judge('nearly singular, updated adjoint', lambda: B.solve_adj(f), LA.solve(F2.T, f), 4 * tol)
    bs, cs, ds = [G[n + i, :n + i].copy() for i in range(m)], [G[:n + i, n + i].copy() for i in range(m)], [float(G[n + i, n + i]) for i in range(m)]
    W = c.do('BEMW', lambda: BEMW(QR(A), bs, cs, ds), A, *bs, *cs)
    h = rng.standard_normal(n + m)
    e, h0 = np.r_[np.zeros(n + m - 1), 1.0], np.r_[h[:-1], 0.0]
    judge('nearly singular, repeatedly bordered', lambda: W.solve(h), LA.solve(G, h), tol * K)
    judge('nearly singular, repeatedly bordered adjoint', lambda: W.solve_adj(h), LA.solve(G.T, h), tol * K)
    judge('nearly singular, repeatedly bordered null', lambda: W.solve_null(), LA.solve(G, e), tol * K)
    judge('nearly singular, repeatedly bordered adjoint null', lambda: W.solve_null_adj(), LA.solve(G.T, e), tol * K)
    judge('nearly singular, repeatedly bordered zero', lambda: W.solve_zero(h[:-1]), LA.solve(G, h0), tol * K)
    c.seen('nearly singular', n, m, int(np.log10(sg)))


def null_other(c):
    """Null vectors of complex and of integer matrices."""
    from funpy.linalg import right_null_vector
    from funpy.linalg.nullspace import left_null_vector, null_vector
    rng = c.rng
    n = dim(rng, 2)
    if rng.random() < .5:
        U, V = [LA.qr(rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n)))[0] for _ in (0, 1)]
        s = np.exp(rng.uniform(-2, 2, n))
        s[-1] = 0
        A, kind = (U * s) @ V, 'complex'
    else:
        n = min(n, 7)
        L, R = [np.tril(rng.integers(-1, 2, (n, n)), -1) + np.eye(n, dtype=int) for _ in (0, 1)]
        D = np.diag(np.r_[rng.choice([-2, -1, 1, 2], n - 1), 0])
        A, kind = (L @ D @ R.T)[rng.permutation(n)], 'integer'
    c.describe('null vectors of a %s matrix of order %d' % (kind, n))
    S = LA.norm(A)
    tol = 1e-9 if kind == 'complex' else 1e-8
    r = c.do('right_null_vector', lambda: right_null_vector(A), A)
    c.close('right null vector, %s' % kind, A @ r / LA.norm(r), np.zeros(n), tol, scale=S)
    left = c.do('left_null_vector', lambda: left_null_vector(A), A)
    c.close('left null vector, %s' % kind, np.conj(left) @ A / LA.norm(left), np.zeros(n), tol, scale=S)
    c.close('normalised', [LA.norm(r), LA.norm(left)], [1.0, 1.0], 1e-12)
    v = c.do('null_vector', lambda: null_vector(A, right=True, left=True, normalize=False), A)
    c.close('both null vectors', A @ v[0] / LA.norm(v[0]), np.zeros(n), tol, scale=S)
    c.close('both null vectors', np.conj(v[1]) @ A / LA.norm(v[1]), np.zeros(n), tol, scale=S)
    c.seen('null', kind, n)


def determinants(c):
    from funpy.linalg import helpers as H
    from funpy.linalg.lucp import lucp
    rng = c.rng
    n = dim(rng)
    sc = float(10.0 ** rng.choice([0, 0, -2, 2]))
    A = rng.standard_normal((n, n)) * sc
    Hm = np.triu(A, -1)
    if rng.random() < .3 and n > 2:
        Hm[int(rng.integers(1, n)), int(rng.integers(0, n))] = 0.0
        Hm = np.triu(Hm, -1)
    c.describe('determinants n=%d scale %g' % (n, sc))
    sg, ld = np.linalg.slogdet(Hm)
    k = np.linalg.cond(Hm)
    if np.isfinite(ld) and k < 1e8:
        s, l = c.do('slogdet_hessenberg', lambda: H.slogdet_hessenberg(Hm), Hm)
        c.close('Hessenberg determinant', [float(s), float(l)], [sg, ld], 1e-11 * k + 1e-10, scale=1.0)
        if abs(ld) < 200 and n > 1 and n <= 20:
            d = c.do('detH', lambda: H.detH(Hm), Hm)
            # the recurrence sums terms of the size of the permanent
            per = H_perm(np.abs(Hm))
            c.close('Hessenberg determinant by recurrence', float(d), sg * np.exp(ld), 1e-12, scale=per)
    S = sps.random(n, n, density=float(rng.uniform(.1, .5)), random_state=int(rng.integers(1 << 30)), format='csc') + sps.diags(rng.standard_normal(n))
    S = sps.csc_matrix(S) * sc
    D = S.toarray()
    k = np.linalg.cond(D)
    if k < 1e7:
        s, l = c.do('logdet', lambda: H.logdet(S))
        sg, ld = np.linalg.slogdet(D)
        c.close('sparse determinant', [float(s), float(l)], [sg, ld], 1e-11 * k + 1e-10, scale=1.0)
    p = rng.permutation(n)
    sw = c.do('minimumSwaps', lambda: H.minimumSwaps(p), p)
    cyc, seen = 0, set()
    for i in range(n):
        if i not in seen:
            cyc += 1
            while i not in seen:
                seen.add(i)
                i = int(p[i])
    c.true('number of swaps', sw == n - cyc, lambda: '%s %s' % (sw, n - cyc))
    P = H.permutation_vector_to_matrix(p).toarray()
    c.true('permutation matrix', np.array_equal(A @ P, A[:, p]))
    B = rng.standard_normal((n, int(rng.integers(1, 9)))) if rng.random() < .4 else A / sc
    if rng.random() < .3:
        B = B + 1j * rng.standard_normal(B.shape)
    L, U, pp, qq = c.do('lucp', lambda: lucp(B, full=bool(rng.random() < .5)), B)
    L, U = [x.toarray() if hasattr(x, 'toarray') else x for x in (L, U)]
    PA = B[pp][:, qq] if np.ndim(pp) == 1 else pp @ B @ qq
    c.close('completely pivoted LU', L @ U, PA, 1e-12 * max(B.shape), scale=np.max(np.abs(B)) * max(B.shape))
    c.true('triangular', not np.any(np.triu(L, 1)) and not np.any(np.tril(U, -1)) and np.allclose(np.diagonal(L), 1) and np.max(np.abs(L)) <= 1 + 1e-12)
    f, g = float(rng.choice([0.0, 1.0, -1.0]) * 10.0 ** rng.uniform(-30, 30)), float(rng.choice([0.0, 1.0, -1.0]) * 10.0 ** rng.uniform(-30, 30))
    if rng.random() < .5:
        f, g = float(rng.standard_normal()), float(rng.standard_normal())
    cs, sn, r = c.do('givens', lambda: H.givensAlgorithm(f, g))
    c.close('rotation', [cs * cs + sn * sn] if f or g else [1.0], [1.0], 1e-13)
    c.close('rotated', [cs * f + sn * g - r, -sn * f + cs * g], [0, 0], 1e-13, scale=max(abs(f), abs(g), 1e-300))
    c.seen('determinants', n, sc)


def H_perm(A):
    """Permanent of an upper Hessenberg matrix by the determinant recurrence with all signs positive."""
    n = A.shape[0]
    d = [1.0]
    for k in range(n):
        t, p = A[k, k] * d[k], 1.0
        for j in range(k - 1, -1, -1):
            p *= A[j + 1, j]
            t += A[j, k] * p * d[j]
        d.append(t)
    return d[-1]


def iterative(c):
    from funpy.linalg import gbit
    rng = c.rng
    n = dim(rng)
    kap = float(rng.choice([1.5, 3, 10, 30]))
    A, U, s, V = matrix(rng, n, cond=kap, scale=float(10.0 ** rng.choice([0, -3, 3])))
    # preconditioned operator close to the identity
    E = rng.standard_normal((n, n))
    E *= float(rng.uniform(.05, .3)) / LA.norm(E, 2)
    P = pinv(U, s, V) @ (np.eye(n) + E)
    b = rng.standard_normal(n)
    x = pinv(U, s, V) @ b
    tol = float(rng.choice([1e-4, 1e-7, 1e-10]))
    y0 = None if rng.random() < .5 else x + rng.standard_normal(n) * LA.norm(x) * .1
    As, Ps = sps.csr_matrix(A), sps.csr_matrix(P)
    c.describe('gbit n=%d cond %g tol %g' % (n, kap, tol))
    y, ok, it, nm, npre = c.do('gbit', lambda: gbit(As, Ps, b, y=None if y0 is None else y0.copy(), tol=tol, rho=.5), b)
    c.event('gbit success' if ok else 'gbit failure')
    if ok:
        c.close('accepted solution', y, x, 50 * tol, scale=LA.norm(x))
    c.true('counts', it >= 0 and nm >= it and npre >= it)
    if n >= 12:
        c.true('converges on well preconditioned systems', ok)
    c.seen('iterative', n, tol, ok)


def tangents(c):
    from funpy import Fun
    from funpy.linalg import LinearSolverNGSchur
    from funpy.vectorspaces import ContinuationState, Parameter
    rng = c.rng
    n, m = int(rng.choice([2, 3, 5, 8, 20, 40])), int(rng.integers(1, 3))
    N = n * m
    A, U, s, V = matrix(rng, N, cond=float(10 ** rng.uniform(0, 2)), scale=1.0)
    Fa = rng.standard_normal(N)
    dom = [-1, 1]
    fun = lambda x: Fun(coeffs=np.asfortranarray(np.asarray(x).reshape((n, m), order='F')), domain=dom, simplify=False)
    st = lambda u, a: ContinuationState(a=Parameter(a=float(np.real(np.asarray(a)).reshape(-1)[0])), u=u)
    v = fun(rng.standard_normal(N))
    T = st(v, rng.standard_normal())
    sysm = c.do('schur', lambda: LinearSolverNGSchur(sps.csc_matrix(A), Fa, T, sps.eye(N), to_function=fun, to_state=st), T, Fa)
    t = c.do('tangent_vector', lambda: sysm.tangent_vector())
    flat = lambda z: np.vstack([np.asarray(z.u.prolong(n).coeffs)]).ravel(order='F')
    tu, ta = flat(t), float(t.a)
    c.close('tangent annihilated', A @ tu + Fa * ta, np.zeros(N), 1e-10, scale=LA.norm(Fa) * abs(ta) + LA.norm(tu) * s[0])
    c.close('tangent normalised', t.norm(), 1.0, 1e-10)
    r = rng.standard_normal(N)
    d = c.do('correction', lambda: sysm.solve(r), r)
    c.close('correction solves', A @ flat(d) + Fa * float(d.a), r, 1e-10, scale=LA.norm(Fa) * abs(float(d.a)) + LA.norm(flat(d)) * s[0] + LA.norm(r))
    c.close('correction normal to the tangent', float(np.inner(t, d)), 0.0, 1e-10, scale=d.norm() + 1e-9)
    c.seen('tangents', n, m)


GROUPS = {'solve': (solve, 1500, 16000), 'deficient': (deficient, 1500, 16000), 'singular': (singular, 1250, 12000),
          'bordered': (bordered, 1000, 10000), 'null vectors': (null_other, 1000, 8000), 'nearly singular': (nearly_singular, 1500, 12000), 'determinants': (determinants, 2000, 16000), 'iterative': (iterative, 1000, 10000),
          'tangents': (tangents, 400, 3200)}
