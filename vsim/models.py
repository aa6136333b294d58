"""Executable reference models: one small transition function per filter, written
from the documentation and the cited laws, generic in the number type.  Every
history is run through a double and an extended-precision copy of the model; how
far the two drift apart measures how much rounding alone can explain, and sets
the tolerance (and the horizon) of every comparison."""
import numpy as np

LD = np.longdouble

DEFAULTS = {
    "AP": {"order": 5, "ifc": 0.001}, "GMCC": {"mu": 0.01, "lambd": 0.03, "alpha": 2}, "GNGD": {"mu": 1.0, "eps": 1.0, "ro": 0.1},
    "Llncosh": {"mu": 0.01, "lambd": 3}, "LMF": {}, "LMS": {}, "NLMF": {"mu": 0.1, "eps": 0.001}, "NLMS": {"mu": 0.1, "eps": 0.001},
    "NSSLMS": {"mu": 0.1, "eps": 0.001}, "OCNLMS": {"mu": 0.1, "eps": 1.0, "mem": 100}, "RLS": {"mu": 0.1, "eps": 0.001}, "SSLMS": {},
    "VSLMS_Ang": {"mu": 1.0, "ro": 0.0002, "a": 0.95}, "VSLMS_Benveniste": {"mu": 1.0, "ro": 0.1}, "VSLMS_Mathews": {"mu": 1.0, "ro": 0.1},
}


def solve(A, b):
    """Gaussian elimination with partial pivoting (numpy has none for longdouble)."""
    A = A.copy()
    b = b.copy()
    n = len(b)
    for i in range(n):
        p = i + int(np.argmax(np.abs(A[i:, i])))
        if p != i:
            A[[i, p]] = A[[p, i]]
            b[[i, p]] = b[[p, i]]
        for j in range(i + 1, n):
            f = A[j, i] / A[i, i]
            if f != 0:
                A[j, i:] -= f * A[i, i:]
                b[j] -= f * b[i]
    x = np.zeros_like(b)
    for i in range(n - 1, -1, -1):
        x[i] = (b[i] - np.sum(A[i, i + 1:] * x[i + 1:])) / A[i, i]
    return x


class Model:
    """`law(e, x)` returns the weight increment and moves the carried state."""

    def __init__(self, spec, w0, T=LD):
        p = dict(DEFAULTS[spec["k"]])
        p.update(spec["p"])
        self.T = T
        self.k = spec["k"]
        self.n = n = spec["n"]
        self.w = np.array(w0, dtype=T)
        self.p = {a: (T(b) if a not in ("order", "mem") else int(b)) for a, b in p.items()}
        self.alpha = p.get("alpha")
        self.mu = self.p["mu"]
        z = np.zeros(n, dtype=T)
        self.lx, self.le = z.copy(), T(0)        # previous sample, previous error
        self.fi = z.copy()
        if self.k == "GNGD":
            self.eps = self.p["eps"]
        if self.k == "RLS":
            self.R = np.identity(n, dtype=T) / self.p["eps"]
        if self.k == "AP":
            self.X = np.zeros((self.p["order"], n), dtype=T)   # newest first
            self.D = np.zeros(self.p["order"], dtype=T)
        if self.k == "OCNLMS":
            m = self.p["mem"]
            self.mx, self.md = np.zeros((m, n), dtype=T), np.zeros(m, dtype=T)
            self.i, self.full = 0, False

    # ---- reading
    def means(self):
        T = self.T
        if not self.full:
            if self.i == 0:
                return T(0), np.zeros(self.n, dtype=T)
            return (np.sum(self.md[:self.i]) / T(self.i),
                    np.sum(self.mx[:self.i + 1], axis=0) / T(len(self.mx[:self.i + 1])))
        m = len(self.md)
        keep = np.ones(m, bool)
        keep[self.i] = False
        return np.sum(self.md[keep]) / T(m - 1), np.sum(self.mx, axis=0) / T(m)

    def predict(self, x):
        x = np.asarray(x, dtype=self.T)
        if self.k == "OCNLMS":
            md, mx = self.means()
            return np.sum(self.w * (x - mx)) + md
        return np.sum(self.w * x)

    # ---- learning
    def _next(self):
        self.i += 1
        if self.i > len(self.md) - 1:
            self.i, self.full = 0, True

    def step(self, d, x):
        """One sample: (output, error, magnitude of the terms of the error)."""
        T = self.T
        d, x = T(d), np.asarray(x, dtype=T)
        k, mu, p = self.k, self.mu, self.p
        if k == "AP":
            self.X[1:] = self.X[:-1].copy()
            self.X[0] = x
            self.D[1:] = self.D[:-1].copy()
            self.D[0] = d
            ev = self.D - self.X @ self.w
            y, e = d - ev[0], ev[0]
            mag = np.abs(d) + np.sum(np.abs(self.w * x))
            G = self.X @ self.X.T + p["ifc"] * np.identity(len(self.D), dtype=T)
            self.w = self.w + mu * (self.X.T @ (solve(G, ev) if T is LD else
                                                np.linalg.solve(G, np.identity(len(ev))) @ ev))
            return y, e, mag
        y = self.predict(x)
        e = d - y
        mag = np.abs(d) + np.sum(np.abs(self.w * x))
        if k == "LMS":
            dw = mu * e * x
        elif k == "NLMS":
            dw = mu * e * x / (p["eps"] + np.sum(x * x))
        elif k == "LMF":
            dw = mu * e * e * e * x
        elif k == "NLMF":
            dw = mu * e * e * e * x / (p["eps"] + np.sum(x * x))
        elif k == "SSLMS":
            dw = mu * np.sign(e) * np.sign(x)
        elif k == "NSSLMS":
            dw = mu * np.sign(e) * np.sign(x) / (p["eps"] + np.sum(x * x))
        elif k == "Llncosh":
            dw = mu * np.tanh(p["lambd"] * e) * x
        elif k == "GMCC":
            a = T(self.alpha)
            ae = np.abs(e)
            dw = mu * p["lambd"] * a * np.exp(-p["lambd"] * ae ** a) * ae ** (a - 1) * np.sign(e) * x
        elif k == "GNGD":
            self.eps = self.eps - p["ro"] * mu * e * self.le * np.sum(x * self.lx) / \
                (np.sum(self.lx * self.lx) + self.eps) ** 2
            dw = mu * e * x / (self.eps + np.sum(x * x))
            self.le, self.lx = e, x.copy()
        elif k == "RLS":
            g = self.R @ x
            h = x @ self.R
            self.R = (self.R - np.outer(g, h) / (mu + np.sum(x * g))) / mu
            dw = self.R @ x * e
        elif k == "VSLMS_Ang":
            self.fi = p["a"] * self.fi + self.le * self.lx
            self.mu = self.mu + p["ro"] * e * np.sum(self.lx * self.fi)
            dw = self.mu * e * x
            self.le, self.lx = e, x.copy()
        elif k == "VSLMS_Benveniste":
            # (I - mu(k-1) x(k-1) x(k-1)^T) fi(k-1) + e(k-1) x(k-1)
            self.fi = self.fi - self.mu * self.lx * np.sum(self.lx * self.fi) + self.le * self.lx
            self.mu = self.mu + p["ro"] * e * np.sum(self.lx * self.fi)
            dw = self.mu * e * x
            self.le, self.lx = e, x.copy()
        elif k == "VSLMS_Mathews":
            self.mu = self.mu + p["ro"] * e * self.le * np.sum(self.lx * x)
            dw = self.mu * e * x
            self.le, self.lx = e, x.copy()
        elif k == "OCNLMS":
            self._next()
            self.mx[self.i] = x
            md, mx = self.means()
            self._next()
            c = x - mx
            self.md[self.i - 1] = e + np.sum(self.w * c) + md
            dw = mu * e * c / (p["eps"] + np.sum(c * c))
        else:
            raise ValueError(k)
        self.w = self.w + dw
        return y, e, mag


class DocOCNLMS:
    """OCNLMS as its documentation reads: inputs and targets are centred by the
    mean of the last `mem` samples.  Used only to tell whether the recorded
    finding about its memory is still there."""

    def __init__(self, spec, w0):
        p = dict(DEFAULTS["OCNLMS"])
        p.update(spec["p"])
        self.w = np.array(w0, dtype=float)
        self.mem, self.mu, self.eps = p["mem"], p["mu"], p["eps"]
        self.hx, self.hd = [], []

    def step(self, d, x):
        mx = np.mean(self.hx[-self.mem:], axis=0) if self.hx else np.zeros(len(x))
        md = np.mean(self.hd[-self.mem:]) if self.hd else 0.0
        y = float(np.dot(self.w, x - mx) + md)
        e = d - y
        self.hx.append(np.array(x))
        self.hd.append(d)
        c = x - np.mean(self.hx[-self.mem:], axis=0)
        self.w = self.w + self.mu / (self.eps + c @ c) * e * c
        return y, e


def sign_sensitive(spec):
    return spec["k"] in ("SSLMS", "NSSLMS") or (spec["k"] == "GMCC" and
                                                spec["p"].get("alpha", 2) < 1.6)


class Guard:
    """The sample sequence run through the model in double and in extended
    precision.  y[k], e[k]: output and error of sample k; W[k]: weights before
    sample k (W[K]: after the last one); ty[k], tw[k]: what rounding may explain;
    K: how many samples can be compared at all."""

    def __init__(self, spec, w0, X, d, seq=None, keep_model=False):
        seq = range(len(d)) if seq is None else seq
        a, b = Model(spec, w0, np.float64), Model(spec, w0, LD)
        sens = sign_sensitive(spec)
        amp = 3e4 if spec["k"] in ("AP", "RLS") else 1e3
        N = len(seq)
        n = spec["n"]
        self.y, self.e = np.zeros(N), np.zeros(N)
        self.W = np.zeros((N + 1, n))
        self.ty, self.tw = np.zeros(N), np.zeros(N + 1)
        self.models = []
        self.K = N
        self.W[0] = b.w
        ws = max(1e-9, float(np.max(np.abs(b.w))))
        dw = 0.0
        dy = 0.0
        self.tw[0] = 1e-12 * ws
        with np.errstate(all="ignore"):
            for k, i in enumerate(seq):
                ya, ea, _ = a.step(d[i], X[i])
                yb, eb, mag = b.step(d[i], X[i])
                mag = float(mag)
                self.y[k], self.e[k] = float(yb), float(eb)
                self.W[k + 1] = b.w
                dw = max(dw, float(np.max(np.abs(a.w - b.w))))
                dy = max(abs(float(ya - yb)), 0.3 * dy)
                ws = max(ws, float(np.max(np.abs(b.w))))
                ys = max(mag, float(np.sum(np.abs(X[i]))) * ws * 0.01)
                # rounding of one step under any ordering of the operations
                self.ty[k] = 1e-9 * ys + amp * dy + 30 * dw * float(np.sum(np.abs(X[i])))
                self.tw[k + 1] = 1e-9 * ws + amp * dw
                amb = sens and abs(float(eb)) < 1e-9 * mag and not (
                    float(eb) == 0.0 and float(ea) == 0.0 and exact(X[i], d[i], a.w))
                # a correlation matrix that has wound up in silence is all rounding, though the weights stand still for now
                wound = spec["k"] == "RLS" and 2e-16 * float(np.max(np.abs(b.R))) * float(np.sum(np.abs(X[i]))) ** 2 > \
                    1e-4 * float(b.mu + abs(np.dot(np.dot(X[i], b.R), X[i])))
                if (amb or wound or not np.all(np.isfinite(a.w)) or not np.isfinite(float(ya)) or ws > 1e10
                        or amp * dw > 1e-5 * ws or amp * dy > 1e-5 * max(ys, 1e-300)
                        or not np.isfinite(self.ty[k])):
                    self.K = k
                    break
        self.a, self.b = a, b

    def y_ok(self, k, v):
        return abs(float(v) - self.y[k]) <= self.ty[k]


def exact(x, d, w):
    """Are all the products and sums of this sample exact in double precision?"""
    return bool(np.all(x * 16 == np.round(x * 16)) and d * 256 == round(d * 256)
                and np.all(w * 256 == np.round(w * 256)) and np.max(np.abs(x), initial=0) < 1e4
                and np.max(np.abs(w), initial=0) < 1e4)


# --------------------------------------------------------------------------- MLP
class MLPModel:
    """Backpropagation by the chain rule; layers is the list of hidden sizes."""

    def __init__(self, Ws, mus, act, outputs, T=LD):
        self.T, self.act, self.outputs = T, act, outputs
        self.W = [np.array(np.atleast_2d(w), dtype=T) for w in Ws]
        self.mus = [T(m) for m in mus]

    def f(self, v):
        return 1 / (1 + np.exp(-v)) if self.act == "sigmoid" else np.tanh(v)

    def forward(self, x):
        T = self.T
        self.ins = []
        h = np.asarray(x, dtype=T)
        for i, W in enumerate(self.W):
            h1 = np.concatenate((np.ones(1, dtype=T), h))
            self.ins.append(h1)
            z = np.sum(W * h1, axis=1)
            h = z if i == len(self.W) - 1 else self.f(z)
        self.out = h
        return h

    def outputs_of(self, X):
        """Outputs for many inputs at once (no state)."""
        h = np.asarray(X, dtype=self.T)
        for i, W in enumerate(self.W):
            h = W[:, 0] + h @ W[:, 1:].T
            if i < len(self.W) - 1:
                h = self.f(h)
        return h

    def backward(self, d):
        """Gradient step for the pair last presented; returns the error."""
        T = self.T
        err = np.asarray(np.atleast_1d(d), dtype=T) - self.out
        delta = err
        new = []
        for i in range(len(self.W) - 1, -1, -1):
            W, h1 = self.W[i], self.ins[i]
            back = W.T @ delta
            new.append(W + self.mus[i] * np.outer(delta, h1))
            if i:
                a = h1[1:]
                delta = back[1:] * (a * (1 - a) if self.act == "sigmoid" else 1 - a * a)
        self.W = new[::-1]
        return err
