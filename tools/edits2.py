"""second series of behaviour-preserving edits: the same results computed
another way"""
import ast
import textwrap
R = "/repo/robuststats/"


def src(f, name):
    """text of a function or method (qualified name) without decorators"""
    s = open(R + f).read()
    t = ast.parse(s)
    body = t
    for part in name.split("."):
        body = [n for n in body.body if getattr(n, "name", None) == part][0]
    return "\n".join(s.splitlines()[body.lineno - 1:body.end_lineno])


def code(f, name):
    """the statements of a function, without its docstring"""
    s = open(R + f).read()
    body = ast.parse(s)
    for part in name.split("."):
        body = [n for n in body.body if getattr(n, "name", None) == part][0]
    b = body.body
    if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
        b = b[1:]
    return "\n".join(s.splitlines()[b[0].lineno - 1:b[-1].end_lineno])


def body(f, name, new):
    old = code(f, name)
    ind = len(old) - len(old.lstrip())
    return f, old, textwrap.indent(textwrap.dedent(new).strip("\n"), " " * ind)


EST = ["c01", "c02", "c03", "c04", "c05", "c06", "c08", "c09", "c14", "c37"]
GEO = ["c23", "c24", "c25", "c26", "c27", "c28", "c29", "c13", "c32"]
EDITS = []
C = "estimation/covariance.py"

# a helper for the quadratic forms, through a linear solve
EDITS.append(dict(id="S01", mods=EST, file=C, multi=True, edits=[
    ("""        temp = invsqrtm(sigma)@X.T
        tau = np.einsum('ij,ji->i', temp.conj().T, temp)
""", """        tau = _quadratic_forms(sigma, X)
"""),
    ("""        temp = invsqrtm(sigma)@X.T
        tau = np.einsum('ij,ji->i', temp.T, temp)
""", """        tau = _quadratic_forms(sigma, X)
"""),
    ("""def get_normalisation_function(""",
     """def _quadratic_forms(sigma, X):
    return np.real(np.sum(X.conj().T * la.solve(sigma, X.T), axis=0))


def get_normalisation_function("""),
]))

# squared moduli of the whitened samples
EDITS.append(dict(id="S02", mods=EST, file=C, multi=True, edits=[
    ("""        tau = np.einsum('ij,ji->i', temp.conj().T, temp)
""", """        tau = (np.abs(temp)**2).sum(axis=0)
"""),
    ("""        tau = np.einsum('ij,ji->i', temp.T, temp)
""", """        tau = np.square(temp).sum(axis=0)
"""),
    ("""        delta = la.norm(sigma_new - sigma) / la.norm(sigma)
        iteration += 1

        # updating sigma
        sigma = sigma_new
""", """        previous, sigma = sigma, sigma_new
        iteration = iteration + 1
        delta = la.norm(sigma - previous, 'fro') / la.norm(previous, 'fro')
"""),
]))

# for loop with a break
EDITS.append(dict(id="S03", mods=EST, file=C, multi=True, edits=[
    ("""    while (delta > tol) and (iteration < iter_max):
""", """    for _ in range(iter_max):
        if not delta > tol:
            break
"""),
]))

EDITS.append(dict(id="S04", mods=["c10", "c11", "c09"],
                  file="estimation/base.py", edits=[
    ("""                while len(self) + len(d) > len(self._array[i]):
                    a = self._array[i]
                    temp = np.zeros(shape, dtype=a.dtype)
                    self._array[i] = np.concatenate([a, temp], axis=0)
""", """                missing = len(self) + len(d) - len(self._array[i])
                if missing > 0:
                    blocks = -(-missing // self._size_preallocation)
                    temp = np.empty((blocks*shape[0],) + shape[1:],
                                    dtype=self._array[i].dtype)
                    self._array[i] = np.vstack((self._array[i], temp)) \\
                        if temp.ndim > 1 else \\
                        np.hstack((self._array[i], temp))
"""),
    ("""                    indices = np.triu_indices(p)
""" if False else """                    if condition_sym or condition_skew:
                        indices = np.triu_indices(p)
                        a = a[:, indices[0], indices[1]]
""", """                    if np.any([condition_sym, condition_skew]):
                        rows, cols = np.triu_indices(p)
                        a = np.stack([m[rows, cols] for m in a])
"""),
    ("""            vec = a.reshape((bs, -1))
""", """            vec = a.reshape(bs, int(np.prod(a.shape[1:])))
"""),
]))

EDITS.append(dict(id="S05", mods=["c12", "c05", "c37", "c36"],
                  file="estimation/structured.py", edits=[
    ("""        for i in range(n_samples):
            M_numerator[:, :, i] = M_i[:, :, i].T @ i_B.conj() @ M_i[:, :, i].conj()
            M_denominator = np.trace(i_A@M_numerator[:, :, i])
            M += a/n_samples * (M_numerator[:, :, i]/M_denominator)
""", """        i_Bc = np.conj(i_B)
        for i, m in enumerate(np.moveaxis(M_i, -1, 0)):
            numerator = np.linalg.multi_dot([m.T, i_Bc, m.conj()])
            M_numerator[:, :, i] = numerator
            M = M + numerator / np.trace(i_A @ numerator)
        M = M * (a / n_samples)
"""),
    ("""            M += b/n_samples * (M_numerator_B/M_denominator)
""", """            M = M + (b * M_numerator_B) / (n_samples * M_denominator)
"""),
    ("""        i_B = la.inv(B)
        sqrtm_A""", """        i_B = la.solve(B, np.eye(b))
        sqrtm_A"""),
]))

V = "models/manifolds.py"
EDITS.append(dict(id="S06", mods=GEO, file=V, edits=[
    body(V, "StrictlyPositiveVectors.inner", """
        return np.sum(u*v/x**2, axis=0, keepdims=True)
    """),
    body(V, "StrictlyPositiveVectors.dist", """
        return np.sqrt(np.sum(np.log(x/y)**2, axis=0, keepdims=True))
    """),
    body(V, "StrictlyPositiveVectors.exp", "return x*np.exp(u/x)"),
    body(V, "StrictlyPositiveVectors.retr",
         "return x + u + .5*np.square(u)/x"),
    body(V, "StrictlyPositiveVectors.log", "return x*(np.log(y)-np.log(x))"),
    body(V, "StrictlyPositiveVectors.transp", "return self.proj(x2, d/x1*x2)"),
    body(V, "StrictlyPositiveVectors.ehess2rhess", """
        return x*(ehess*x + egrad*u)
    """),
]))
EDITS.append(dict(id="S07", mods=GEO, file=V, edits=[
    body(V, "HermitianPositiveDefinite.inner", """
        a, b = la.solve(x, u), la.solve(x, v)
        return np.real(np.sum(a*multitransp(b)))
    """),
    body(V, "HermitianPositiveDefinite.retr", """
        s = la.solve(x, u)
        return x + u + u@s/2
    """),
    body(V, "HermitianPositiveDefinite.egrad2rgrad",
         "return x@multiherm(u)@x"),
    body(V, "HermitianPositiveDefinite.ehess2rhess", """
        g = multiherm(egrad)
        return x@multiherm(ehess)@x + multiherm(u@g@x)
    """),
    body(V, "SpecialHermitianPositiveDefinite.egrad2rgrad", """
        return self.proj(x, x@u@x)
    """),
]))
EDITS.append(dict(id="S08", mods=GEO, file=V, edits=[
    body(V, "HermitianPositiveDefinite.exp", """
        def function(f, m):
            d, q = la.eigh(m)
            return (q*f(d)[..., np.newaxis, :])@np.conj(multitransp(q))

        x_sqrt = function(np.sqrt, x)
        x_isqrt = function(lambda d: 1/np.sqrt(d), x)
        return multiherm(
            x_sqrt@function(np.exp, x_isqrt@u@x_isqrt)@x_sqrt)
    """),
    body(V, "HermitianPositiveDefinite.log", """
        def function(f, m):
            d, q = la.eigh(m)
            return (q*f(d)[..., np.newaxis, :])@np.conj(multitransp(q))

        x_sqrt = function(np.sqrt, x)
        x_isqrt = la.inv(x_sqrt)
        return multiherm(
            x_sqrt@function(np.log, x_isqrt@y@x_isqrt)@x_sqrt)
    """),
]))
EDITS.append(dict(id="S09", mods=["c26", "c25", "c27", "c13"], file=V, edits=[
    body(V, "HermitianPositiveDefinite.norm", """
        return np.sqrt(self.inner(x, u, u))
    """),
    body(V, "HermitianPositiveDefinite.dist", """
        v = self.log(x, y)
        return np.sqrt(self.inner(x, v, v))
    """),
]))
P_ = "models/probability.py"
EDITS.append(dict(id="S10", mods=["c18", "c19", "c20", "c14", "c13"], file=P_,
                  edits=[
    body(P_, "_check_parameters_complex_normal", """
        cov = np.asarray(cov)
        mean = None if mean is None else np.asarray(mean)
        if cov.ndim == 0:
            cov = np.eye(mean.size if mean is not None else 1)*cov
        if mean is None:
            mean = np.zeros(cov.shape[:1], dtype=cov.dtype)
        if np.iscomplexobj(mean) or np.iscomplexobj(cov):
            return (arraytoreal(mean + 0j), covariancetoreal(cov + 0j))
        return mean, cov
    """),
]))
M_ = "models/mappings.py"
EDITS.append(dict(id="S11", mods=["c15", "c16", "c17", "c18", "c20", "c07"],
                  file=M_, edits=[
    body(M_, "arraytoreal", """
        if not np.iscomplexobj(a):
            logging.debug("Input array is not complex, returning input")
            return a
        if a.ndim not in (1, 2):
            raise AttributeError("Input array format not supported.")
        return np.concatenate((a.real, a.imag), axis=-1)
    """),
    body(M_, "arraytocomplex", """
        if np.iscomplexobj(a):
            return a
        if a.ndim not in (1, 2) or a.shape[-1] % 2 != 0:
            raise AttributeError("Input array format not supported")
        real, imag = np.split(a, 2, axis=-1)
        return real + 1j*imag
    """),
    body(M_, "covariancetoreal", """
        if not np.iscomplexobj(a):
            logging.debug("Input array is not complex, returning input.")
            return a
        if not iscovariance(a):
            raise AttributeError("Input array is not a covariance.")
        re, im = a.real/2, a.imag/2
        return np.vstack([np.hstack([re, -im]), np.hstack([im, re])])
    """),
    body(M_, "check_Hermitian", """
        return np.allclose(a, a.T.conj(), rtol, atol)
    """),
]))
L = "utils/linalg.py"
EDITS.append(dict(id="S12", mods=["c30", "c31", "c01", "c21", "c02"], file=L,
                  edits=[
    body(L, "_matrix_operator", """
        be = get_be_autograd(autograd)
        eigvals, eigvects = be.linalg.eigh(Ci)
        return (eigvects * operator(eigvals)) @ be.conjugate(eigvects.T)
    """),
    body(L, "vec", "return mat.T.reshape(-1)"),
    body(L, "unvec", """
        k = int(round(np.sqrt(v.size)))
        assert k**2 == v.size
        return v.reshape(k, k).T
    """),
    body(L, "vech", """
        rows, cols = np.triu_indices(len(mat))
        return mat.T[rows, cols]
    """),
    body(L, "unvech", """
        rows = int(np.round(.5 * (-1 + np.sqrt(1 + 8 * len(v)))))
        r, c = np.triu_indices(rows)
        result = np.zeros((rows, rows), dtype=v.dtype)
        result[c, r] = v
        lower = np.tril(result, -1)
        return result + np.conj(lower.T)
    """),
    body(L, "ToeplitzMatrix", """
        first = rho**np.arange(p)
        return toeplitz(first).astype(dtype)
    """),
]))
O = "online/estimation.py"
EDITS.append(dict(id="S13", mods=["c32", "c33", "c36", "c37"], file=O, edits=[
    body(O, "StochasticGradientCovarianceEstimator._current_lr", """
        rate = self.lrate
        if lr_update == "inverse iteration":
            rate = rate/(1+iteration)
        return rate
    """),
    ("""        t = -self._current_lr(lr_update, self._iteration)
        if isinstance(nabla, list):
            t_nabla = [t*x for x in nabla]
        elif isinstance(nabla, tuple):
            t_nabla = tuple([t*x for x in nabla])
        else:
            t_nabla = t*nabla

        estimate = self.manifold.retr(self.estimate_, t_nabla)
        self.set_estimate(estimate)
        self._iteration += 1
""", """        step = self._current_lr(lr_update, self._iteration)
        if isinstance(nabla, (list, tuple)):
            moves = map(lambda x: -step*x, nabla)
            direction = tuple(moves) if isinstance(nabla, tuple) \\
                else list(moves)
        else:
            direction = -(step*nabla)
        self._iteration += 1
        self.set_estimate(self.manifold.retr(self.estimate_, direction))
"""),
    ("""        for iteration in range(n_samples):
            self.update(X[iteration, :].reshape((1, n_features)), lr_update)
""", """        for sample in X:
            self.update(sample[None, :], lr_update)
"""),
]))
K = "models/cost.py"
EDITS.append(dict(id="S14", mods=["c22", "c35"], file=K, edits=[
    ("""    q = be.einsum('ij,ji->i', X, be_la.solve(Q, X.T))
    return p*be.sum(be.log(q)) + n*be.log(be_la.det(Q))
""", """    q = be.sum(X.T * be_la.solve(Q, X.T), axis=0)
    return n*be_la.slogdet(Q)[1] + p*be.sum(be.log(q))
"""),
]))
T = "estimation/structured.py"
EDITS.append(dict(id="S15", mods=["c13", "c14", "c36"], file=T, edits=[
    ("""            M_i = Y[i, :].reshape((b, a), order='F')
            S_i = M_i.T@i_B.conj()@M_i.conj()
            Q_i = np.real(np.trace(i_A@S_i))

            grad_A -= (df+2*a*b)/(df+2*Q_i) * i_A@S_i@i_A
            grad_B -= (df+2*a*b)/(df+2*Q_i) *\\
                i_B@(M_i@i_A.T@M_i.T.conj())@i_B
""", """            M_i = Y[i].reshape((a, b)).T
            S_i = M_i.T@np.conj(i_B)@np.conj(M_i)
            T_i = M_i@i_A.T@np.conj(M_i.T)
            Q_i = np.real(np.sum(i_A*S_i.T))
            weight = (df+2*a*b)/(df+2*Q_i)

            grad_A = grad_A - weight*(i_A@S_i@i_A)
            grad_B = grad_B - weight*(i_B@T_i@i_B)
"""),
    ("""        return -np.sum(logpdf_samples)
""", """        return np.sum(-logpdf_samples)
"""),
]))
G = "utils/generation_data.py"
EDITS.append(dict(id="S16", mods=["c21"], file=G, edits=[
    body(G, "sample_complex_standard_normal_distribution", """
        real = random.randn(p, N)
        imag = random.randn(p, N)
        return (real + 1j*imag)/np.sqrt(2)
    """),
    body(G, "generate_textures_gamma_dist", """
        return random.gamma(shape=nu, scale=1/nu, size=(N, 1))
    """),
    body(G, "sample_compound_distribution", """
        assert cov.dtype == np.float64
        X = sample_normal_distribution(tau.shape[0], cov)
        return X * np.sqrt(tau).ravel()
    """),
]))
