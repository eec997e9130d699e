"""Lattice transforms: shared generation helpers."""
TRACE = "DftTrace"
MC = [dict(module="DftMC", cfg="DftMC.cfg", workers=4)]
MC_THOROUGH = [dict(module="DftMC", cfg="DftMC_thorough.cfg", workers=8)]
LMN = [[0, 0, 25], [15, 0, 20], [0, 15, 20], [-15, 0, 20], [0, -15, 20],
       [20, 0, 15], [0, 20, 15], [-20, 0, 15], [0, -20, 15],
       [9, 12, 20], [-9, 12, 20], [9, -12, 20], [12, 9, 20], [-12, -9, 20],
       [12, 16, 15], [16, -12, 15], [-16, 12, 15]]
INVN = {25: 12, 20: 15, 15: 20}


def arr(shape, f):
    return f() if not shape else [arr(shape[1:], f) for _ in range(shape[0])]


def split(rng, n, k):
    k = max(1, min(k, n))
    cuts = sorted(rng.sample(range(1, n), k - 1)) if k > 1 else []
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]
