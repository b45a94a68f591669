"""Behaviour-preserving edits."""
COV = "estimation/covariance.py"
BAS = "estimation/base.py"
STR = "estimation/structured.py"
MAN = "models/manifolds.py"
MAP = "models/mappings.py"
PRO = "models/probability.py"
COST = "models/cost.py"
ONL = "online/estimation.py"
LIN = "utils/linalg.py"
GEN = "utils/generation_data.py"
ESTI = ["c01", "c02", "c03", "c04", "c05", "c06", "c08", "c09", "c14"]
MANI = ["c23", "c24", "c25", "c26", "c27", "c28", "c29", "c13", "c32", "c33"]

EDITS = [
    dict(id="R01", file=LIN, mods=["c30", "c31"] + ESTI[:6] + ["c21"], edits=[
        ("""    eigvals, eigvects = be.linalg.eigh(Ci)
    eigvals = be.diag(operator(eigvals))
    Out = be.dot(be.dot(eigvects, eigvals), be.conjugate(eigvects).T)
    return Out
""", """    eigvals, eigvects = be.linalg.eigh(Ci)
    scaled = eigvects * operator(eigvals)[be.newaxis, :]
    return be.matmul(scaled, be.conjugate(be.transpose(eigvects)))
"""),
        ("    return mat.ravel('F')\n", "    return mat.T.reshape(-1)\n"),
        ("    return mat.T.take(_triu_indices(len(mat)))\n",
         "    rows, cols = np.triu_indices(len(mat))\n    return mat[cols, rows]\n"),
        ("""    k = int(np.sqrt(len(v)))
    assert(k * k == len(v))
    return v.reshape((k, k), order='F')
""", """    k = int(round(len(v)**.5))
    assert k * k == len(v)
    return v.reshape((k, k)).T
"""),
        ("""    def isqrt(x):
        return 1. / be.sqrt(x)
    return _matrix_operator(Ci, isqrt, autograd)
""", """    return _matrix_operator(Ci, lambda x: 1 / be.sqrt(x), autograd)
"""),
        ("    return .5*(X + be.conjugate(X.T))\n", "    return (X + be.conjugate(X).T)/2\n"),
        ("    return 0.5 * (A + multihconj(A, autograd))\n", "    A_H = multihconj(A, autograd)\n    return (A + A_H) / 2\n"),
    ]),
    dict(id="R02", file=LIN, mods=["c30", "c31", "c01", "c12"], edits=[
        ("    return toeplitz(np.power(rho, np.arange(0, p))).astype(dtype)\n",
         """    column = np.array([rho**k for k in range(p)])
    return toeplitz(column).astype(dtype)
"""),
        ("""    result = np.zeros((rows, rows), dtype=v.dtype)
    # vech stores the lower triangle column by column
    result.T[np.triu_indices(rows)] = v
    result = result + np.tril(result, -1).conj().T

    return result""", """    result = np.zeros((rows, rows), dtype=v.dtype)
    start = 0
    for j in range(rows):
        stop = start + rows - j
        result[j:, j] = v[start:stop]
        result[j, j+1:] = np.conj(v[start+1:stop])
        start = stop
    return result"""),
        ("    return be.conjugate(multitransp(A))\n", "    return multitransp(be.conj(A))\n"),
    ]),
    dict(id="R03", file=COV, mods=ESTI, edits=[
        ("""        temp = invsqrtm(sigma)@X.T
        tau = np.einsum('ij,ji->i', temp.T, temp)
        tau = (1/p) * tau
        temp = X.T / np.sqrt(tau)
        sigma_new = (1/N) * temp@temp.T
""", """        temp = np.dot(invsqrtm(sigma), X.T)
        tau = np.sum(temp**2, axis=0) / p
        temp = X / np.sqrt(tau)[:, np.newaxis]
        sigma_new = np.dot(temp.T, temp) / N
"""),
        ("""        tau = np.einsum('ij,ji->i', temp.conj().T, temp)
        tau = (1/p) * np.real(tau)
        temp = X.T / np.sqrt(tau)
        sigma_new = (1/N) * temp@temp.conj().T
""", """        tau = np.sum(np.abs(temp)**2, axis=0) / p
        weights = 1/tau
        sigma_new = (X.T * weights) @ X.conj() / N
"""),
        ("""        tau = df + np.real(tau)
        temp = X.T / np.sqrt(tau)
        sigma_new = ((df+p)/N) * temp@temp.T
""", """        weights = (df + p) / (df + np.real(tau))
        sigma_new = np.einsum('i,ij,ik->jk', weights, X, X) / N
"""),
        ("""        tau = df/2 + np.real(tau)
        temp = X.T / np.sqrt(tau)
        sigma_new = ((df/2+p)/N) * temp@temp.conj().T
""", """        tau = 2*np.real(tau) + df
        temp = X.T / np.sqrt(tau)
        sigma_new = ((df + 2*p)/N) * np.matmul(temp, np.conj(temp.T))
"""),
        ("    return (1/beta)*np.minimum(1,lbda/x)\n",
         "    return np.where(x <= lbda, 1, lbda/x)/beta\n"),
        ("    lbda = chi2.ppf(q, p)\n    beta = chi2.cdf(lbda, p+2) + lbda*(1-q)/p\n",
         "    lbda = chi2(p).ppf(q)\n    beta = chi2(p+2).cdf(lbda) + (1-q)*lbda/p\n"),
        ("""    if normalisation == 'trace':
        return trace
    elif normalisation == 'determinant':
        return determinant
    elif normalisation == 'element':
        return element
    elif normalisation == 'None':
        return (lambda x: 1)
    else:
        logging""", """    functions = {'trace': trace, 'determinant': determinant,
                 'element': element, 'None': lambda x: 1}
    if normalisation in functions:
        return functions[normalisation]
    else:
        logging"""),
    ]),
    dict(id="R04", file=COV, mods=ESTI, multi=True, edits=[
        ("        delta = la.norm(sigma_new - sigma) / la.norm(sigma)\n        iteration += 1\n\n        # updating sigma\n        sigma = sigma_new\n",
         "        delta = _relative_change(sigma_new, sigma)\n        iteration = iteration + 1\n        sigma = sigma_new\n"),
        ("    while (delta > tol) and (iteration < iter_max):\n",
         "    while iteration < iter_max and not delta <= tol:\n"),
        ("@_deprecate_positional_args\ndef huber_m_est", """def _relative_change(new, old):
    return np.sqrt(np.sum(np.abs(new - old)**2) / np.sum(np.abs(old)**2))


@_deprecate_positional_args
def huber_m_est"""),
        ("    N, p = X.shape\n", "    N = X.shape[0]\n    p = X.shape[1]\n"),
        ("        return np.real(np.trace(covariance)) / covariance.shape[0]\n",
         "        return np.mean(np.real(np.diag(covariance)))\n"),
    ]),
    dict(id="R05", file=COV, mods=ESTI + ["c35"], edits=[
        ("""    norm_X = la.norm(X, axis=1)
    Y = X / np.tile(norm_X.reshape(n_samples, 1), [1, n_features])

    # Pymanopt setting
    logging.info("Seeting up pymanopt for natural gradient descent")
    manifold = Sym""", """    Y = X / np.sqrt(np.sum(X**2, axis=1, keepdims=True))

    # Pymanopt setting
    logging.info("Seeting up pymanopt for natural gradient descent")
    manifold = Sym"""),
        ("""        res = autograd.grad(cost, argnum=[0])(Q)
        return res[0]
""", """        return autograd.grad(cost)(Q)
"""),
        ("""    X_real = np.concatenate([arraytoreal(X), arraytoreal(1j*X)])
""", """    X_real = np.vstack((arraytoreal(X), arraytoreal(X*1j)))
"""),
        ("    Sigma = (Sigma + np.conj(Sigma).T)/2\n", "    Sigma = .5*(Sigma + Sigma.conj().T)\n"),
    ]),
    dict(id="R06", file=BAS, mods=["c07", "c09", "c10", "c11", "c14"], edits=[
        ("        covariance = np.dot(X.T, X.conj()) / X.shape[0]\n",
         "        covariance = X.T @ np.conj(X) / len(X)\n"),
        ("        covariance = np.cov(X.T, bias=1)\n",
         "        Y = X - X.mean(axis=0)\n        covariance = np.dot(Y.T, Y.conj()) / len(Y)\n"),
        ("""                    a_H = np.transpose(a, axes=(0, 2, 1)).conj()
                    condition_sym = (np.abs(a - a_H) < self._tol).all()
                    condition_skew = (np.abs(a + a_H) < self._tol).all()
""", """                    a_H = np.conj(np.swapaxes(a, 1, 2))
                    condition_sym = np.all(np.abs(a - a_H) < self._tol)
                    condition_skew = np.max(np.abs(a + a_H)) < self._tol
"""),
        ("""        error = comp_cov - self.covariance_
        if norm == 'frobenius':
            squared_norm = np.sum(np.abs(error)**2)
""", """        error = comp_cov - self.covariance_
        if norm == 'frobenius':
            squared_norm = np.linalg.norm(error)**2
"""),
        ("""        return np.real(np.einsum('ij,jk,ik->i', X.conj(),
                                 self.get_precision(), X))
""", """        Z = X @ self.get_precision().T
        return np.sum(np.real(X.conj() * Z), axis=1)
"""),
        ("""        if self.n_jobs == 1:
            for i in range(n_trials):
                self.estimator.fit(X[i, :, :], **kwargs)
                covmats[i, :, :] = self.estimator.covariance_
""", """        if self.n_jobs == 1:
            for i, x in enumerate(X):
                covmats[i] = self.estimator.fit(x, **kwargs).covariance_
"""),
    ]),
    dict(id="R07", file=BAS, mods=["c10", "c11", "c09", "c08"], edits=[
        ("""                shape = (self._size_preallocation, *(self._shape[i]))
                while len(self) + len(d) > len(self._array[i]):
                    a = self._array[i]
                    temp = np.zeros(shape, dtype=a.dtype)
                    self._array[i] = np.concatenate([a, temp], axis=0)
                self._array[i][len(self):len(self)+len(d)] = d
""", """                needed = len(self) + len(d)
                if needed > len(a):
                    size = max(needed, len(a) + self._size_preallocation)
                    temp = np.empty((size, *self._shape[i]), dtype=a.dtype)
                    temp[:len(self)] = a[:len(self)]
                    self._array[i] = temp
                self._array[i][len(self):needed] = d
"""),
        ("""        shape = list()
        for i in range(len(self._shape)):
            shape.append((len(self), *(self._shape[i])))
        shape = tuple(shape)
        return shape
""", """        return tuple((len(self),) + tuple(s) for s in self._shape)
"""),
        ("""        a = self._array
        a = [a[i][:len(self)] for i in range(len(a))]
        temp = [a[i][key] for i in range(len(a))]
        if isinstance(key, (int, np.integer)):
            temp = [temp[i][np.newaxis, ...] for i in range(len(temp))]
""", """        temp = [a[:len(self)][key] for a in self._array]
        if isinstance(key, (int, np.integer)):
            temp = [t[np.newaxis] for t in temp]
"""),
        ("""        a = [self._array[i][:len(self)] for i in range(self.nb_manifolds)]
        for i in range(len(a)):
            if len(a[i]) == 1:
                a[i] = np.squeeze(a[i], axis=0)
        if self.nb_manifolds == 1:
            a = a[0]
        return a
""", """        n = len(self)
        arrays = [a[0] if n == 1 else a[:n] for a in self._array]
        return arrays[0] if len(arrays) == 1 else arrays
"""),
    ]),
    dict(id="R08", file=STR, mods=["c12", "c13", "c05"], edits=[
        ("""        M = np.zeros((a, a), dtype=Y.dtype)
        M_numerator = np.zeros((a, a, n_samples), dtype=Y.dtype)
        for i in range(n_samples):
            M_numerator[:, :, i] = M_i[:, :, i].T @ i_B.conj() @ M_i[:, :, i].conj()
            M_denominator = np.trace(i_A@M_numerator[:, :, i])
            M += a/n_samples * (M_numerator[:, :, i]/M_denominator)
""", """        M_numerator = np.einsum('jan,jk,kbn->abn', M_i, i_B.conj(), M_i.conj())
        M_denominator = np.einsum('ab,ban->n', i_A, M_numerator)
        M = a/n_samples * np.sum(M_numerator/M_denominator, axis=2)
"""),
        ("""        for i in range(n_samples):
            M_numerator_B = M_i[:, :, i] @ i_A.T @ M_i[:, :, i].T.conj()
            M_denominator = np.trace(i_A@M_numerator[:, :, i])
            M += b/n_samples * (M_numerator_B/M_denominator)
""", """        for i in range(n_samples):
            S = M_i[:, :, i]
            numerator = S @ i_A.T @ np.conj(S.T)
            M = M + b * numerator/np.trace(i_A @ M_numerator[:, :, i])/n_samples
"""),
        ("        delta_A = la.norm(A_new - A, 'fro') / la.norm(A, 'fro')\n",
         "        delta_A = la.norm(A_new - A) / la.norm(A)\n"),
        ("""        Y = X - np.tile(loc.reshape((1, n_features)), [n_samples, 1])
""", """        Y = X - loc
"""),
        ("""            S_i = M_i.T@i_B.conj()@M_i.conj()
            Q_i = np.real(np.trace(i_A@S_i))

            grad_A -= (df+2*a*b)/(df+2*Q_i) * i_A@S_i@i_A
            grad_B -= (df+2*a*b)/(df+2*Q_i) *\\
                i_B@(M_i@i_A.T@M_i.T.conj())@i_B
""", """            S_i = M_i.T@i_B.conj()@M_i.conj()
            Q_i = np.sum(i_A*S_i.T).real
            weight = (df/2+a*b)/(df/2+Q_i)
            left = i_B@M_i
            grad_A = grad_A - weight * (i_A@S_i@i_A)
            grad_B = grad_B - weight * (left@i_A.T@left.conj().T)
"""),
    ]),
    dict(id="R09", file=MAP, mods=["c15", "c16", "c17", "c07", "c18", "c20"],
         edits=[
        ("            return np.hstack([np.real(a), np.imag(a)])\n",
         "            return np.concatenate((a.real, a.imag), axis=1)\n"),
        ("            return np.vstack(a[:, :p] + 1j*a[:, p:])\n",
         "            return a[:, :p] + 1j*a[:, p:]\n"),
        ("""            real_matrix = .5 * np.block([[np.real(a), -np.imag(a)],
                                        [np.imag(a), np.real(a)]])
            return real_matrix
""", """            top = np.hstack([a.real, -a.imag])
            bottom = np.hstack([a.imag, a.real])
            return np.vstack([top, bottom]) / 2
"""),
        ("""        a_real = np.zeros((n_samples, 2*n_features, 2*n_features))
        for i in range(n_samples):
            a_real[i] = covariancetoreal(a[i])
        return a_real
""", """        return np.array([covariancetoreal(m) for m in a])
"""),
        ("    return np.allclose(a, np.conj(a.T), rtol=rtol, atol=atol)\n",
         "    return bool(np.isclose(a, a.T.conj(), rtol, atol).all())\n"),
        ("    return (a.ndim == 2) and (a.shape[0] == a.shape[1])\n",
         "    return len(a.shape) == 2 and len(set(a.shape)) == 1\n"),
    ]),
    dict(id="R10", file=MAN, mods=MANI, edits=[
        ("""        d, q = la.eigh(x)
        if k == 1:
            x_sqrt = q@np.diag(np.sqrt(d))@q.conj().T
            x_isqrt = q@np.diag(1/np.sqrt(d))@q.conj().T
        else:
            temp = np.zeros(q.shape, dtype=np.complex)
            for i in range(q.shape[0]):
                temp[i, :, :] = np.diag(np.sqrt(d[i, :]))[np.newaxis, :, :]
            x_sqrt = multiprod(multiprod(q, temp), multihconj(q))

            temp = np.zeros(q.shape, dtype=np.complex)
            for i in range(q.shape[0]):
                temp[i, :, :] = np.diag(1/np.sqrt(d[i, :]))[np.newaxis, :, :]
            x_isqrt = multiprod(multiprod(q, temp), multihconj(q))

        d, q = la.eigh(multiprod(multiprod(x_isqrt, u), x_isqrt))
        if k == 1:
            e = q@np.diag(np.exp(d))@q.conj().T
        else:
            temp = np.zeros(q.shape, dtype=np.complex)
            for i in range(q.shape[0]):
                temp[i, :, :] = np.diag(np.exp(d[i, :]))[np.newaxis, :, :]
            d = temp
            e = multiprod(multiprod(q, d), multihconj(q))

        e = multiprod(multiprod(x_sqrt, e), x_sqrt)
        e = multiherm(e)
        return e
""", """        d, q = la.eigh(x)
        d = np.sqrt(d)[..., np.newaxis, :]
        x_sqrt = (q*d) @ multihconj(q)
        x_isqrt = (q/d) @ multihconj(q)
        d, q = la.eigh(x_isqrt @ u @ x_isqrt)
        e = (q*np.exp(d)[..., np.newaxis, :]) @ multihconj(q)
        return multiherm(x_sqrt @ e @ x_sqrt)
"""),
        ("        r = x + u + (1/2)*u@la.solve(x, u)\n        return r\n",
         "        return x + u + u@la.inv(x)@u/2\n"),
        ("""        return np.real(
            np.tensordot(la.solve(x, u), multitransp(la.solve(x, v)),
                         axes=x.ndim))
""", """        a, b = la.solve(x, u), la.solve(x, v)
        return np.real(np.sum(a * np.swapaxes(b, -1, -2)))
"""),
        ("""        c = la.cholesky(x)
        c_inv = la.inv(c)
        return np.real(
            la.norm(multiprod(multiprod(c_inv, u), multihconj(c_inv))))
""", """        return np.sqrt(self.inner(x, u, u))
"""),
        ("        return multiprod(multiprod(x, multiherm(u)), x)\n",
         "        return x @ multiherm(u) @ x\n"),
    ]),
    dict(id="R11", file=MAN, mods=MANI, edits=[
        ("""        if self._k == 1:
            x = x / (np.real(la.det(x))**(1/self._n))
        else:
            x = x / (np.real(la.det(x))**(1/self._n)).reshape(-1, 1, 1)

        return x
""", """        return self._unit_det(x)

    def _unit_det(self, x):
        det = np.real(la.det(x))[..., np.newaxis, np.newaxis]
        return x * det**(-1/self._n)
"""),
        ("""        r = self.HPD.retr(x, u)

        # Normalize them.
        if self._k == 1:
            r = r / np.real(la.det(r))**(1/self._n)
        else:
            r = r / (np.real(la.det(r))**(1/self._n)).reshape(-1, 1, 1)
        return r
""", """        return self._unit_det(self.HPD.retr(x, u))
"""),
        ("""        t = np.trace(la.solve(x, u), axis1=-2, axis2=-1)
        if k == 1:
            u = u - (1/n) * np.real(t) * x
        else:
            u = u - (1/n) * np.real(t.reshape(-1, 1, 1)) * x

        return u
""", """        t = np.einsum('...ii', la.solve(x, u)).real
        return u - np.expand_dims(t, (-1, -2)) * x / n
"""),
        ("""        E = multihconj(la.solve(multihconj(x1), multihconj(x2)))
        if self._k == 1:
            E = sqrtm(E)
        else:
            for i in range(len(E)):
                E[i, :, :] = sqrtm(E[i, :, :])
""", """        E = x2 @ la.inv(x1)
        if self._k == 1:
            E = sqrtm(E)
        else:
            E = np.array([sqrtm(e) for e in E])
"""),
        ("""        hess = multiprod(multiprod(x, multiherm(ehess)), x)
        hess += multiherm(multiprod(multiprod(u, egrad), x))
        return hess
""", """        first = x @ multiherm(ehess) @ x
        second = u @ egrad @ x
        return first + (second + multihconj(second))/2
"""),
        ("        return np.sum(inv_x*u*inv_x*v, axis=0, keepdims=True)\n",
         "        return ((u/x)*(v/x)).sum(axis=0, keepdims=True)\n"),
        ("        return la.norm(np.log(x)-np.log(y), axis=0, keepdims=True)\n",
         "        return np.sqrt(np.sum(np.log(x/y)**2, axis=0, keepdims=True))\n"),
    ]),
    dict(id="R12", file=MAN, mods=MANI, edits=[
        ("""        weights = self._weights
        return np.sqrt(np.sum([weights[k]*np.squeeze(man.dist(X[k], Y[k])**2)
                               for k, man in enumerate(self._manifolds)]))
""", """        total = 0
        for m, w, x, y in zip(self._manifolds, self._weights, X, Y):
            total = total + w*np.squeeze(m.dist(x, y))**2
        return np.sqrt(total)
"""),
        ("""            [(1/weights[k])*man.egrad2rgrad(X[k], U[k])
             for k, man in enumerate(self._manifolds)])
""", """            [m.egrad2rgrad(x, u)/w for m, w, x, u in
             zip(self._manifolds, weights, X, U)])
"""),
        ("""        c = la.cholesky(x)
        c_inv = la.inv(c)
        logm = multilog(multiprod(multiprod(c_inv, y), multihconj(c_inv)),
                        pos_def=True)
        return np.real(la.norm(logm))
""", """        c_inv = la.inv(la.cholesky(x))
        w = la.eigvalsh(multiprod(multiprod(c_inv, y), multihconj(c_inv)))
        return np.sqrt(np.sum(np.log(w)**2))
"""),
        ("        t = la.slogdet(theta_2[1])[1] - la.slogdet(theta_1[1])[1]\n",
         "        t = np.log(np.real(la.det(theta_2[1]))/np.real(la.det(theta_1[1])))\n"),
        ("""        _part_B_xi = la.solve(theta[1], xi[1])
        _part_B_eta = la.solve(theta[1], eta[1])
""", """        inv_B = la.inv(theta[1])
        _part_B_xi = inv_B @ xi[1]
        _part_B_eta = inv_B @ eta[1]
"""),
        ("        return u*(x**2)\n", "        return x*u*x\n"),
        ("        return x + u + (1/2)*(x**-1)*(u**2)\n", "        return x + u + u**2/(2*x)\n"),
        ("        return x*np.exp((1./x)*u)\n", "        return x*np.exp(u/x)\n"),
    ]),
    dict(id="R13", file=PRO, mods=["c18", "c19", "c20", "c14"], edits=[
        ("""        return np.real(super(complex_multivariate_normal_gen,
                             self).pdf(x, mean, cov, allow_singular))
""", """        return np.exp(np.real(super().logpdf(x, mean, cov, allow_singular)))
"""),
        ("""        if is_complex:
            return arraytocomplex(super(complex_multivariate_normal_frozen,
                                        self).rvs(size, random_state))
        else:
            return super(complex_multivariate_normal_frozen,
                         self).rvs(size, random_state)
""", """        sample = super().rvs(size=size, random_state=random_state)
        return arraytocomplex(sample) if is_complex else sample
"""),
        ("""    if np.isrealobj(mean) and np.isrealobj(cov):
        return mean, cov
    else:
        return arraytoreal(mean.astype(complex)),\\
                covariancetoreal(cov.astype(complex))
""", """    if np.iscomplexobj(mean) or np.iscomplexobj(cov):
        mean = arraytoreal(mean + 0j)
        cov = covariancetoreal(cov + 0j)
    return mean, cov
"""),
    ]),
    dict(id="R14", file=COST, mods=["c22", "c35"], edits=[
        ("    return p*be.sum(be.log(q)) + n*be.log(be_la.det(Q))\n",
         "    return n*be_la.slogdet(Q)[1] + p*be.sum(be.log(q))\n"),
        ("    q = be.einsum('ij,ji->i', X, be_la.solve(Q, X.T))\n",
         "    q = be.sum(X * be_la.solve(Q, X.T).T, axis=1)\n"),
        ("    q = be.einsum('ij,ji->i', be.conjugate(X), be_la.solve(Q, X.T))\n",
         "    q = be.einsum('ij,jk,ik->i', be.conj(X), be_la.inv(Q), X)\n"),
    ]),
    dict(id="R15", file=ONL, mods=["c32", "c33"], edits=[
        ("        for iteration in range(n_samples):\n            self.update(X[iteration, :].reshape((1, n_features)), lr_update)\n",
         "        for x in X:\n            self.update(x[np.newaxis, :], lr_update)\n"),
        ("import logging\n", "import logging\nimport numpy as np\n"),
        ("""        t = -self._current_lr(lr_update, self._iteration)
        if isinstance(nabla, list):
            t_nabla = [t*x for x in nabla]
        elif isinstance(nabla, tuple):
            t_nabla = tuple([t*x for x in nabla])
        else:
            t_nabla = t*nabla
""", """        lr = self._current_lr(lr_update, self._iteration)
        if isinstance(nabla, (list, tuple)):
            t_nabla = type(nabla)(-lr*x for x in nabla)
        else:
            t_nabla = -lr*nabla
"""),
        ("""        if self.estimatetocov is None:
            return estimate
        else:
            return self.estimatetocov(estimate)
""", """        if self.estimatetocov is not None:
            estimate = self.estimatetocov(estimate)
        return estimate
"""),
    ]),
    dict(id="R16", file=GEN, mods=["c21"], edits=[
        ("    X = random.randn(p, N) + 1j*random.randn(p, N)\n    X = (1/np.sqrt(2))*X\n    return X\n",
         "    real = random.randn(p, N)\n    imag = random.randn(p, N)\n    return (real + 1j*imag)/np.sqrt(2)\n"),
        ("""    D = np.diag(random.rand(p)**2)

    # Generate an orthogonal matrix.
    Q = generate_stiefel(p, p)

    sigma = Q@D@Q.T
""", """    d = random.rand(p)**2

    # Generate an orthogonal matrix.
    Q = generate_stiefel(p, p)

    sigma = (Q*d)@Q.T
"""),
        ("    mu = -(s**2)/2\n    textures = lognorm.rvs(scale=np.exp(mu), s=s, size=(N, 1))\n    return textures\n",
         "    return lognorm.rvs(s=s, scale=np.exp(-variance/2), size=(N, 1))\n"),
        ("""    if k < p:
        Q = ortho_group.rvs(p)[:, :k]
    else:
        Q = ortho_group.rvs(p)
    return Q
""", """    return ortho_group.rvs(p)[:, :min(k, p)]
"""),
        ("""    temp = np.sqrt(tau).reshape((1, -1))
    X = temp*sample_normal_distribution(N, cov)
    return X
""", """    return np.sqrt(tau).ravel() * sample_normal_distribution(N, cov)
"""),
        ("    X = np.sqrt(tau).reshape((1, -1))*(U@cn_k) + cn_p\n    return X\n\n\ndef sample_complex_tau",
         "    return U@(cn_k*np.sqrt(tau).T) + cn_p\n\n\ndef sample_complex_tau"),
    ]),
    dict(id="R17", file="utils/montecarlo.py", mods=["c34"], edits=[
        ("""    state = np.random.get_state()
    np.random.seed(seed)
    try:
        yield
    finally:
        np.random.set_state(state)""", """    previous = np.random.get_state()
    try:
        np.random.seed(seed)
        yield
    finally:
        np.random.set_state(previous)"""),
        ("utils/checking.py", """    if strictly:
        condition = var > 0
    else:
        condition = var >= 0

    if not condition:
        raise""", """    if not (var > 0 or (not strictly and var == 0)):
        raise"""),
        ("utils/checking.py", "    if type(var) not in accepted_types:\n",
         "    if not any(type(var) is t for t in accepted_types):\n"),
        ("utils/checking.py", "    if var not in accepted_values:\n",
         "    if not any(var == v for v in accepted_values):\n"),
    ]),
]
