"""Independent oracle: dense joint distribution per connected component, in numpy."""
import numpy as np


class Exact(object):
    def __init__(self, spec, limit=2 ** 20):
        self.spec = spec
        self.comps = []
        self.comp_of = {}
        for comp in spec.components():
            shape = [spec.card(i) for i in comp]
            if float(np.prod([float(s) for s in shape])) > limit:
                raise ValueError("component too large for the dense oracle")
            ax = {i: a for a, i in enumerate(comp)}
            J = np.ones(shape)
            for i in comp:
                fam = spec.parents[i] + [i]
                t = spec.cpt[i]
                # transpose the CPT to component axis order and broadcast
                perm = sorted(range(len(fam)), key=lambda a: ax[fam[a]])
                t = np.transpose(t, perm)
                dims = [1] * len(comp)
                for f in fam:
                    dims[ax[f]] = spec.card(f)
                J = J * t.reshape(dims)
            self.comps.append((comp, ax, J))
            for i in comp:
                self.comp_of[i] = len(self.comps) - 1

    def _weighted(self, c, lik):
        comp, ax, J = self.comps[c]
        W = J
        for i in comp:
            if lik and i in lik:
                dims = [1] * len(comp)
                dims[ax[i]] = self.spec.card(i)
                W = W * np.asarray(lik[i], dtype=float).reshape(dims)
        return W

    def p_evidence(self, lik=None):
        """One number per component."""
        return [float(self._weighted(c, lik).sum()) for c in range(len(self.comps))]

    def marginals(self, lik=None):
        """id -> posterior vector (zeros if the evidence is impossible in the node's component)."""
        out = {}
        for c, (comp, ax, J) in enumerate(self.comps):
            W = self._weighted(c, lik)
            for i in comp:
                m = W.sum(axis=tuple(a for a in range(len(comp)) if a != ax[i]))
                s = m.sum()
                out[i] = m / s if s > 0 else np.zeros_like(m)
        return out

    def joint(self, ids, lik=None):
        """P(ids, evidence) as an array with axes in the order of ids; ids within one component."""
        c = self.comp_of[ids[0]]
        comp, ax, J = self.comps[c]
        W = self._weighted(c, lik)
        keep = [ax[i] for i in ids]
        m = W.sum(axis=tuple(a for a in range(len(comp)) if a not in keep))
        rest = sorted(keep)
        return np.transpose(m, [rest.index(k) for k in keep])

    def prob(self, assignment, lik=None):
        """Joint probability of a full or partial assignment {id: value index}, times likelihoods."""
        p = 1.0
        for c, (comp, ax, J) in enumerate(self.comps):
            W = self._weighted(c, lik)
            p *= float(W[tuple(assignment[i] if i in assignment else slice(None) for i in comp)].sum())
        return p


def compare_marginals(ctx, spec, got, want, what, rtol=1e-9, atol=1e-12):
    """got: name -> {str(value): p} as reported; want: id -> vector."""
    ctx.eq(set(got), set(spec.names.values()), what + ": wrong variables reported")
    for i in spec.order:
        g = got[spec.names[i]]
        labels = [str(v) for v in spec.values[i]]
        if len(set(labels)) < len(labels):      # two values of one text: this form of the answer cannot tell them apart
            ctx.ev("marginals_of_like_texts")
            continue
        ctx.eq(list(g), labels, what + ": wrong values reported", variable=spec.names[i])
        ctx.close([g[s] for s in labels], want[i], what, rtol=rtol, atol=atol, variable=spec.names[i], id=i)
    ctx.ev("marginals_compared", len(spec.order))
