"""A small deterministic stand-in for the third-party package fast_pytorch_kmeans.

The package is not installed in this sandbox.  The stand-in offers the calls simple-einet makes
(fit, fit_predict, predict, centroids, max_sim) and draws its start points from torch's global
generator, like the original draws from numpy's.
"""
import torch


class KMeans:
    def __init__(self, n_clusters, max_iter=100, tol=0.0001, verbose=0, mode="euclidean", init_method="kmeans++",
                 minibatch=None):
        self.n_clusters = n_clusters
        self.max_iter = 10
        self.mode = mode
        self.verbose = verbose
        self.centroids = None

    @staticmethod
    def _sim(a, b):
        return 2 * a @ b.transpose(-2, -1) - (a**2).sum(dim=1)[..., :, None] - (b**2).sum(dim=1)[..., None, :]

    def max_sim(self, a, b):
        return self._sim(a, b).max(dim=-1)

    def fit_predict(self, X, centroids=None):
        n = X.shape[0]
        idx = torch.randperm(n)[: self.n_clusters]
        while idx.numel() < self.n_clusters:
            idx = torch.cat([idx, idx])[: self.n_clusters]
        c = X[idx].clone()
        closest = None
        for _ in range(self.max_iter):
            closest = self.max_sim(a=X, b=c)[1]
            new = c.clone()
            for k in range(self.n_clusters):
                m = closest == k
                if m.any():
                    new[k] = X[m].mean(dim=0)
            if torch.equal(new, c):
                break
            c = new
        self.centroids = c
        return self.max_sim(a=X, b=c)[1]

    def fit(self, X, centroids=None):
        self.fit_predict(X, centroids)

    def predict(self, X):
        return self.max_sim(a=X, b=self.centroids)[1]
