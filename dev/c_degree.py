"""P34: degrees and Laplacians."""
TR = 'tensor/tensor_representation.py'
AR = 'hypergraph/representation/abstract_representations.py'
P = ['P34']
DEG = """        coeff = 1.0/(np.all(self.Io == self.Ii, axis=0) + 1)
        return np.multiply(np.sum(self.Io, axis=0) + np.sum(self.Ii, axis=0), coeff)
"""
DDT = """        coeff = np.apply_along_axis(
            np.diag, 1, 1.0/((np.sum(self.W, axis=1) == np.sum(self.W, axis=2)).astype(float) + 1))
        __DD = np.apply_along_axis(np.diag, 1, np.sum(self.W, axis=1))
        return __DD @ coeff
"""
LP = "        return self.D - np.sum(self.W, axis=0)\n"
LL = "        return self.DD - self.W\n"
NL = "        return 1.0/(self.Ii.shape[0] - 1) * self.L/np.sqrt(self.deg + 1)\n"
DD1 = "        return np.diag(self.degree_matrix())\n"
TOT = "        return np.sum(self.degree_matrix())\n"


def ind(s):
    return ''.join('        ' + x + '\n' if x else '\n' for x in s.split('\n'))


CASES = [
    ('degree of one side', 'bug', P, [(TR, DEG, ind("return np.sum(self.Io, axis=0)"))]),
    ('degree both sides always', 'bug', P, [(TR, DEG, ind("return np.sum(self.Io, axis=0) + np.sum(self.Ii, axis=0)"))]),
    ('degree halved always', 'bug', P, [(TR, DEG, ind("return 0.5*(np.sum(self.Io, axis=0) + np.sum(self.Ii, axis=0))"))]),
    ('degree per edge', 'bug', P, [(TR, DEG, DEG.replace('np.sum(self.Io, axis=0)', 'np.sum(self.Io, axis=1)').replace('np.sum(self.Ii, axis=0)', 'np.sum(self.Ii, axis=1)'))]),
    ('any instead of all', 'bug', P, [(TR, "np.all(self.Io == self.Ii, axis=0) + 1", "np.any(self.Io == self.Ii, axis=0) + 2")]),
    ('counting instead of weights', 'bug', P, [(TR, DEG, ind("return np.sum(self.Io, axis=0) - np.sum(self.Ii, axis=0)"))]),
    ('total of one', 'bug', P, [(TR, TOT, ind("return np.sum(self.Io)"))]),
    ('total halved', 'bug', P, [(TR, TOT, ind("return np.sum(self.degree_matrix()) / 2"))]),
    ('total max', 'bug', P, [(TR, TOT, ind("return np.sum(self.D @ self.D)"))]),
    ('diagonal tensor full', 'bug', P, [(TR, DDT, DDT.replace('__DD @ coeff', '__DD * 1.0'))]),
    ('diagonal tensor broadcast', 'bug', P, [(TR, DDT, ind("return 0.5*np.sum(self.W, axis=1)[:, :, None] * np.ones_like(self.W)"))]),
    ('diagonal along other axis', 'bug', P, [(TR, "np.diag, 1, 1.0/", "np.diag, 0, 1.0/")]),
    ('diagonal over edges', 'bug', P, [(TR, "__DD = np.apply_along_axis(np.diag, 1, np.sum(self.W, axis=1))", "__DD = np.apply_along_axis(np.diag, 1, np.sum(self.W, axis=0))")]),
    ('laplacian sign', 'bug', P, [(TR, LL, ind("return self.DD + self.W"))]),
    ('laplacian reversed', 'bug', P, [(TR, LL, ind("return self.W - self.DD"))]),
    ('projected over nodes', 'bug', P, [(TR, LP, ind("return self.D - np.sum(self.W, axis=1)"))]),
    ('projected twice', 'bug', P, [(TR, LP, ind("w = np.sum(self.W, axis=0)\nreturn self.D - (w + w.T)"))]),
    ('projected directed transposed', 'bug', P, [(TR, LP, ind("return self.D - np.sum(self.W, axis=0).T"))]),
    ('projected symmetrised', 'bug', P, [(TR, LP, ind("w = np.sum(self.W, axis=0)\nreturn self.D - 0.5 * (w + w.T)"))]),
    ('projected degree vector', 'bug', P, [(TR, LP, ind("return self.deg - np.sum(self.W, axis=0)"))]),
    ('projected of L', 'bug', P, [(TR, LP, ind("return np.sum(self.L, axis=0)"))]),
    ('D of outgoing', 'bug', P, [(TR, DD1, ind("return np.diag(np.sum(self.Io, axis=0))"))]),
    ('D of degree through property', 'same', P, [(TR, DD1, ind("return np.diag(self.deg)"))]),
    ('in place on the tensor', 'bug', P, [(TR, LP, ind("w = np.sum(self.W, axis=0)\nd = self.D\nd -= w\nself.Io[:] = 0\nreturn d"))]),
    ('W negated in place', 'bug', P, [(TR, LL, ind("w = self.W\nw *= -1\nreturn self.DD - w"))]),
    ('degrees added in place', 'bug', P, [(TR, DEG, ind("d = self.Io\nd += self.Ii\ncoeff = 1.0/(np.all(self.Io == self.Ii, axis=0) + 1)\nreturn np.sum(d, axis=0) * coeff"))]),
    ('laplacian with out', 'bug', P, [(TR, LL, ind("return np.subtract(self.DD, self.W, out=self.W)"))]),
    ('diagonal of W set', 'bug', P, [(TR, LL, ind("w = self.W.view()\nfor e in range(w.shape[0]):\n    np.fill_diagonal(w[e], 0)\nreturn self.DD - w"))]),
    ('degree remembered', 'bug', P, [(TR, DEG, ind("if getattr(self, '_deg', None) is None:\n    self._deg = 0.5*np.sum(self.Io, axis=0) + 0.5*np.sum(self.Ii, axis=0)\nreturn self._deg"))]),
    ('laplacian remembered', 'bug', P, [(TR, "class NumpyTensorRepresentation(AbstractTensorRepresentation):\n", "class NumpyTensorRepresentation(AbstractTensorRepresentation):\n\n    def __init__(self):\n        super().__init__()\n        self._lp = None\n"),
                                       (TR, LP, ind("if self._lp is None:\n    self._lp = self.D - np.sum(self.W, axis=0)\nreturn self._lp"))]),
    ('laplacian loop wrong diagonal', 'bug', P, [(TR, LL, ind("l = np.zeros_like(self.W)\nfor e in range(self.W.shape[0]):\n    l[e] = np.diag(np.sum(self.W[e], axis=0)) - self.W[e]\nreturn l"))]),
    ('entropy alters L', 'bug', P, [(TR, "        v = np.abs(", "        self.W[:] = 0\n        v = np.abs(")]),
    # ---- same
    ('property deg of', 'same', [], [(TR, TOT, ind("return np.sum(self.deg)"))]),
    ('total from parts', 'same', [], [(TR, TOT, ind("return self.degree_matrix().sum()"))]),
    ('total by trace', 'same', [], [(TR, TOT, ind("return np.trace(self.D)"))]),
    ('degree by methods', 'same', [], [(TR, DEG, ind("both = (self.Io == self.Ii).all(axis=0)\nreturn np.where(both, 0.5, 1.0) * (self.Io.sum(axis=0) + self.Ii.sum(axis=0))"))]),
    ('degree where sums', 'same', [], [(TR, DEG, ind("o, i = self.Io.sum(0), self.Ii.sum(0)\nreturn (o + i) / (1 + np.all(np.equal(self.Io, self.Ii), 0))"))]),
    ('degree by columns', 'same', [], [(TR, DEG, DEG.replace('return ', 'res = ') + "        return res\n")]),
    ('degree einsum', 'same', [], [(TR, DEG, ind("coeff = 1.0/(1 + np.all(self.Io == self.Ii, axis=0))\nreturn np.einsum('en,n->n', self.Io + self.Ii, coeff)"))]),
    ('degree in place', 'same', [], [(TR, DEG, ind("d = np.sum(self.Io, axis=0) + np.sum(self.Ii, axis=0)\nd[np.all(self.Io == self.Ii, axis=0)] /= 2\nreturn d"))]),
    ('degree accumulated', 'same', [], [(TR, DEG, ind("d = np.sum(self.Io, axis=0)\nd += np.sum(self.Ii, axis=0)\nd *= 1.0/(np.all(self.Io == self.Ii, axis=0) + 1)\nreturn d"))]),
    ('tensor by broadcasting', 'same', [], [(TR, DDT, ind("s = np.sum(self.W, axis=1)\nk = np.where(s == np.sum(self.W, axis=2), 0.5, 1.0)\nreturn (s * k)[:, :, np.newaxis] * np.eye(self.W.shape[1])"))]),
    ('tensor by loop', 'same', [], [(TR, DDT, ind("s = np.sum(self.W, axis=1)\ns = s / (1.0 + (s == np.sum(self.W, axis=2)))\nout = np.zeros_like(self.W)\nfor e in range(self.W.shape[0]):\n    out[e] = np.diag(s[e])\nreturn out"))]),
    ('tensor by arange', 'same', [], [(TR, DDT, ind("s = np.sum(self.W, axis=1)\ns = s / (1.0 + (s == np.sum(self.W, axis=2)))\nout = np.zeros_like(self.W)\nn = np.arange(self.W.shape[1])\nout[:, n, n] = s\nreturn out"))]),
    ('tensor by comprehension', 'same', [], [(TR, DDT, ind("s = np.sum(self.W, axis=1)\nk = 1.0/((s == np.sum(self.W, axis=2)).astype(float) + 1)\nreturn np.array([np.diag(r) for r in s * k])"))]),
    ('tensor by two loops', 'same', [], [(TR, DDT, ind("s = np.sum(self.W, axis=1)\ns = s * np.where(s == np.sum(self.W, axis=2), 0.5, 1)\nout = np.zeros_like(self.W)\nfor e in range(self.W.shape[0]):\n    for i in range(self.W.shape[1]):\n        out[e, i, i] = s[e, i]\nreturn out"))]),
    ('tensor by einsum', 'same', [], [(TR, DDT, ind("s = np.einsum('eij->ej', self.W)\nk = 1.0/((s == np.einsum('eij->ei', self.W)).astype(float) + 1)\nreturn np.einsum('ei,ij->eij', s * k, np.identity(self.W.shape[1]))"))]),
    ('laplacian plus negative', 'same', [], [(TR, LL, ind("return -self.W + self.diag_degree_tensor()"))]),
    ('laplacian subtract', 'same', [], [(TR, LL, ind("return np.subtract(self.DD, self.W)"))]),
    ('laplacian in place on DD', 'same', [], [(TR, LL, ind("l = self.DD\nl -= self.W\nreturn l"))]),
    ('projected sum method', 'same', [], [(TR, LP, ind("w = self.W.sum(axis=0)\nreturn np.diag(self.deg) - w"))]),
    ('projected einsum', 'same', [], [(TR, LP, ind("return self.D - np.einsum('eij->ij', self.W)"))]),
    ('D identity product', 'same', [], [(TR, DD1, ind("d = self.degree_matrix()\nreturn np.eye(d.shape[0]) * d"))]),
    ('D filled', 'same', [], [(TR, DD1, ind("d = self.degree_matrix()\nout = np.zeros((d.shape[0], d.shape[0]))\nnp.fill_diagonal(out, d)\nreturn out"))]),
    ('copies', 'same', [], [(TR, LL, ind("w = self.W.copy()\nw *= -1\nreturn self.DD + w"))]),
    ('helper', 'same', [], [(TR, "    def degree_matrix(self):\n", "    @staticmethod\n    def _sum_nodes(b):\n        return np.sum(b, axis=0)\n\n    def degree_matrix(self):\n"), (TR, "np.sum(self.Io, axis=0) + np.sum(self.Ii, axis=0)", "self._sum_nodes(self.Io) + self._sum_nodes(self.Ii)")]),
    # ---- P35
    ('normalized by rows', 'bug', ['P35'], [(TR, NL, ind("return 1.0/(self.Ii.shape[0] - 1) * self.L/np.sqrt(self.deg + 1)[:, None]"))]),
    ('normalized by all edges', 'bug', ['P35'], [(TR, NL, ind("return 1.0/self.Ii.shape[0] * self.L/np.sqrt(self.deg + 1)"))]),
    ('normalized by nodes', 'bug', ['P35'], [(TR, NL, ind("return 1.0/(self.Ii.shape[1] - 1) * self.L/np.sqrt(self.deg + 1)"))]),
    ('normalized both sides', 'bug', ['P35'], [(TR, NL, ind("d = 1.0/np.sqrt(self.deg + 1)\nreturn 1.0/(self.Ii.shape[0] - 1) * d[:, None] * self.L * d"))]),
    ('normalized without root', 'bug', ['P35'], [(TR, NL, ind("return 1.0/(self.Ii.shape[0] - 1) * self.L/(self.deg + 1)"))]),
    ('normalized without one', 'bug', ['P35'], [(TR, NL, ind("return 1.0/(self.Ii.shape[0] - 1) * self.L/np.sqrt(self.deg)"))]),
    ('normalized of W', 'bug', ['P35'], [(TR, NL, ind("return 1.0/(self.Ii.shape[0] - 1) * self.W/np.sqrt(self.deg + 1)"))]),
    ('normalized len of row', 'bug', ['P35'], [(TR, NL, ind("return self.L/np.sqrt(self.deg + 1) / (len(self.W[0]) - 1)"))]),
    ('normalized fixed', 'bug', ['P35'], [(TR, NL, ind("return 0.5 * self.L/np.sqrt(self.deg + 1)"))]),
    ('entropy of other diagonal', 'bug', ['P35'], [(TR, "diagonal(axis1=1, axis2=2)", "diagonal(axis1=0, axis2=1)")]),
    ('entropy of L', 'bug', ['P35'], [(TR, "self.calc_normalized_laplacian().diagonal", "self.L.diagonal")]),
    ('spectrum of D', 'bug', ['P35'], [(TR, "np.linalg.eig(self.Lp/self.total_deg)", "np.linalg.eig(self.D/self.total_deg)")]),
    ('spectrum not scaled', 'bug', ['P35'], [(TR, "np.linalg.eig(self.Lp/self.total_deg)", "np.linalg.eig(self.Lp)")]),
    ('spectrum scaled by count', 'bug', ['P35'], [(TR, "np.linalg.eig(self.Lp/self.total_deg)", "np.linalg.eig(self.Lp/self.Lp.shape[0])")]),
    ('normalized divided', 'same', [], [(TR, NL, ind("return self.L / ((self.W.shape[0] - 1) * np.sqrt(1 + self.degree_matrix()))"))]),
    ('normalized in steps', 'same', [], [(TR, NL, ind("n = self.Ii.shape[0]\nscale = np.sqrt(self.deg + 1)\nl = self.L\nl = l / scale\nreturn l / (n - 1)"))]),
    ('normalized power', 'same', [], [(TR, NL, ind("return self.L * (self.deg + 1) ** -0.5 / (len(self.Ii) - 1)"))]),
    ('normalized matrix', 'same', [], [(TR, NL, ind("return 1.0/(self.Ii.shape[0] - 1) * self.L @ np.diag(1.0/np.sqrt(self.deg + 1))"))]),
    ('diagonal einsum', 'same', [], [(TR, "self.calc_normalized_laplacian().diagonal(axis1=1, axis2=2)", "np.einsum('eii->ei', self.Lnorm)")]),
    ('diagonal function', 'same', [], [(TR, "self.calc_normalized_laplacian().diagonal(axis1=1, axis2=2)", "np.diagonal(self.calc_normalized_laplacian(), axis1=1, axis2=2)")]),
    ('eigvals', 'same', [], [(TR, "np.linalg.eig(self.Lp/self.total_deg)[0]", "np.linalg.eigvals(self.Lp/self.total_deg)")]),
    ('eig divided after', 'same', [], [(TR, "np.linalg.eig(self.Lp/self.total_deg)[0]", "np.linalg.eig(self.Lp)[0]/self.total_deg")]),
]
CASES += [
 ('degree by the larger side and the smaller', 'same', ['P34', 'P35'], [('tensor/tensor_representation.py', "        coeff = 1.0/(np.all(self.Io == self.Ii, axis=0) + 1)\n        return np.multiply(np.sum(self.Io, axis=0) + np.sum(self.Ii, axis=0), coeff)\n", "        coeff = 1.0/(np.all(self.Io == self.Ii, axis=0) + 1)\n        return np.multiply(np.sum(np.maximum(self.Io, self.Ii) + np.minimum(self.Ii, self.Io), axis=0), coeff)\n")]),
 ('degree by the larger side', 'bug', ['P34'], [('tensor/tensor_representation.py', "        coeff = 1.0/(np.all(self.Io == self.Ii, axis=0) + 1)\n        return np.multiply(np.sum(self.Io, axis=0) + np.sum(self.Ii, axis=0), coeff)\n", "        return np.sum(np.where(self.Io > self.Ii, self.Io, self.Ii), axis=0)\n")]),
 ('laplacian of the stronger direction', 'bug', ['P34'], [('tensor/tensor_representation.py', "        return self.D - np.sum(self.W, axis=0)\n", "        w = np.sum(self.W, axis=0)\n        return self.D - np.where(w >= w.T, w, w.T)\n")]),
 ('abs of the negated', 'same', ['P34', 'P35'], [('tensor/tensor_representation.py', "        v = np.abs(np.linalg.eig(self.Lp/self.total_deg)[0])\n", "        v = np.abs(-np.linalg.eig(self.Lp/self.total_deg)[0])\n")]),
]
