"""C10 non-dominated sorting against the definition."""
import numpy as np
from pySOT.utils import domination, nd_add, nd_front, nd_sorting
from . import gen
from .common import case, require


def vectors(r, mmax=3, nmax=14):
    M, N = r.randint(1, mmax + 1), r.randint(1, nmax)
    k = r.randint(4)
    if k == 0:
        return r.randint(0, 4, size=(M, N)).astype(float)  # many ties and duplicates
    if k == 1:
        return r.randn(M, N)
    if k == 2:
        F = r.randn(M, N)
        return np.repeat(F, 2, axis=1)[:, : max(1, N)]
    F = np.sort(r.randn(M, N), axis=1)
    F[0] = F[0] if r.rand() < 0.5 else F[0][::-1]
    return np.ascontiguousarray(F)


def dom(a, b):
    return all(x < y for x, y in zip(a, b))


def front(F, idx):
    return [i for i in idx if not any(dom(F[:, j], F[:, i]) for j in idx)]


@case("C10", n=400)
def dominates(ctx):
    r = ctx.rng
    m = r.randint(1, 5)
    a, b = r.randint(0, 3, size=m).astype(float), r.randint(0, 3, size=m).astype(float)
    ctx.note(a=a, b=b)
    require(bool(domination(a, b)) == dom(a, b), "domination(%s, %s) = %s" % (a, b, domination(a, b)))


@case("C10", n=500)
def fronts(ctx):
    F = vectors(ctx.rng)
    ctx.note(F=F)
    F0 = F.copy()
    nd, df = nd_front(F)
    N = F.shape[1]
    require(np.array_equal(F, F0), "input modified")
    require(sorted(list(nd) + list(df)) == list(range(N)), "the two parts do not hold each index exactly once", nd=list(nd), df=list(df))
    require(sorted(nd) == front(F, range(N)), "not the non-dominated vectors", nd=list(nd), expected=front(F, range(N)))


@case("C10", n=300)
def adding(ctx):
    F = vectors(ctx.rng)
    N = F.shape[1]
    ctx.note(F=F)
    nd0 = front(F, range(N - 1))
    df0 = [i for i in range(N - 1) if i not in nd0]
    r = ctx.rng
    nd0, df0 = [int(v) for v in r.permutation(nd0)], [int(v) for v in r.permutation(df0)]
    nd, df = nd_add(F, list(df0), list(nd0))
    require(sorted(list(nd) + list(df)) == list(range(N)), "indices lost or repeated", nd=list(nd), df=list(df))
    require(sorted(nd) == front(F, range(N)), "front wrong after adding a vector", nd=list(nd))


@case("C10", n=400)
def ranks(ctx):
    r = ctx.rng
    F = vectors(r, nmax=16)
    N = F.shape[1]
    nmax = int(r.randint(1, N + 3))
    ctx.note(F=F, nmax=nmax)
    F0 = F.copy()
    got = np.asarray(nd_sorting(F, nmax), dtype=float).ravel()
    require(np.array_equal(F, F0), "input modified")
    want = np.full(N, np.inf)
    left, k, count = list(range(N)), 1, 0
    while left and count < nmax:
        fr = front(F, left)
        want[fr] = k
        count += len(fr)
        left = [i for i in left if i not in fr]
        k += 1
    require(got.shape == (N,) and np.array_equal(got, want), "ranks differ from repeated removal of fronts", got=got, expected=want)
