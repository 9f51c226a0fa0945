"""property -> exploration programs (checks/*.cpp) that decide it"""
O0 = ["-O0"]
O1 = ["-O1"]


def blas(src, *defs, **kw):
    name = src[:-4] + "".join("_" + d.replace("=", "") for d in defs)
    return dict({"name": name, "src": src, "flags": ["-O0"] + ["-D" + d for d in defs], "san": True}, **kw)


def crypto(src, *defs, **kw):
    name = src[:-4] + "".join("_" + d.replace("=", "").replace("::", "_") for d in defs)
    return dict({"name": name, "src": src, "flags": ["-O1"] + ["-D" + d for d in defs], "san": False}, **kw)


def big(prop):
    return blas("big_shapes.cpp", "PROP=%d" % prop, flags=["-O1", "-DPROP=%d" % prop])


DEGS = [12, 62, 63, 2, 3, 4]
STD = "STANDARD_EC_INF_POINTS_ENABLED"   # the build option for the other affine encoding of infinity
SWC = ["affine", "jacobian", "jacobian_with_a4_0", "jacobian_with_a4_minus_3", "projective", "projective_with_a4_minus_3"]
MULC = [("short_weierstrass", c) for c in SWC] + [("twisted_edwards", c) for c in ("affine", "extended_with_a_minus_1", "inverted")] + [("montgomery", "affine")]
# kind, q, non-residue, x0, x1, r, trace
TINYPAIR = [(1, 37, 2, 2, 1, 13, -1), (1, 7207, -1, 3, 1, 601, -4), (2, 13, 2, 0, 0, 17, -3), (2, 241, 7, 0, 0, 257, -15), (2, 421, 2, 0, 0, 401, 21),
            (2, 601, 7, 0, 0, 577, 25), (3, 37, 2, 0, 0, 43, -5), (3, 37, 2, 0, 0, 31, 7), (3, 577, 5, 0, 0, 601, -23), (4, 31, 3, 0, 0, 7, 4),
            (4, 43, 3, 0, 0, 13, -8), (4, 853, 2, 0, 0, 223, -38), (4, 859, 2, 0, 0, 211, 16)]
CHECKS = {
    "C01": {"parts": [blas("vec_ops.cpp"), blas("blas_types.cpp", "PROP=1"), big(1)]},
    "C02": {"parts": [blas("vec_struct.cpp"), blas("blas_types.cpp", "PROP=2"), big(2)]},
    "C03": {"parts": [blas("vec_reduce.cpp"), blas("blas_types.cpp", "PROP=3"), big(3)]},
    "C04": {"parts": [blas("mat_struct.cpp", "PART=%d" % i) for i in range(4)] + [blas("blas_types.cpp", "PROP=4"), big(4)]},
    "C06": {"parts": [blas("mat_prod.cpp", "PART=%d" % i) for i in range(3)] + [blas("blas_types.cpp", "PROP=6"), big(6)]},
    "C07": {"parts": [blas("mat_solve.cpp", "PART=7", shards=4), blas("blas_types.cpp", "PROP=7", shards=2), big(7)]},
    "C08": {"parts": [blas("mat_solve.cpp", "PART=8", shards=4), blas("blas_types.cpp", "PROP=8", shards=2), big(8)]},
    "C09": {"parts": [blas("mat_prod.cpp", "PART=3"), blas("blas_types.cpp", "PROP=9"), big(9)]},
    "C11": {"parts": [blas("detail_helpers.cpp")]},
    "C10": {"parts": [blas("scalar.cpp", shards=8, flags=["-O1"])]},
    "C05": {"parts": [blas("mat_ops.cpp", "PART=%d" % i) for i in range(3)] + [blas("blas_types.cpp", "PROP=5"), big(5)]},
    "C12": {"parts": [crypto("fp.cpp", "PART=1", shards=2), crypto("fp.cpp", "PART=2", shards=6)]},
    "C13": {"parts": [crypto("ext.cpp", "PROP=13", "DEG=%d" % d, shards=6 if d == 12 else 2) for d in DEGS]},
    "C14": {"parts": [crypto("ext.cpp", "PROP=14", "DEG=%d" % d, shards=8 if d == 12 else 1) for d in DEGS]},
    "C15": {"parts": [crypto("ext.cpp", "PROP=15", "DEG=%d" % d, shards=3 if d == 12 else 1) for d in DEGS] + [crypto("consts.cpp", "PART=3", shards=4)]},
    "C16": {"parts": [crypto("consts.cpp", "PART=1", shards=4), crypto("consts.cpp", "PART=2", shards=6)]},
    "C17": {"parts": [crypto("curve_sw.cpp", "PROP=17", "COORD=" + c, shards=2) for c in SWC]},
    "C18": {"parts": [crypto("curve_sw.cpp", "PROP=18", "COORD=" + c, shards=2) for c in SWC]},
    "C19": {"parts": [crypto("curve_ed.cpp", "PROP=19", "KIND=%d" % k, shards=2) for k in (1, 2, 3, 4, 5)]},
    "C20": {"parts": [crypto("curve_ed.cpp", "PROP=20", "KIND=%d" % k, shards=2) for k in (1, 2, 3, 5)]},
    "C21": {"parts": [crypto("curve_mul.cpp", "FORM=" + f, "COORD=" + c, shards=2) for f, c in MULC]},
    "C22": {"parts": [crypto("curve_params.cpp", "PART=%d" % i, shards=4 if i == 8 else 2 if i in (7, 9) else 1) for i in (8, 7, 9, 1, 2, 3, 4, 5, 6, 10)] +
            [crypto("curve_params.cpp", "PART=%d" % i, STD, shards=4 if i == 8 else 2 if i in (7, 9) else 1) for i in (8, 7, 9, 1, 2, 3, 4, 5, 6, 10)]},
    "C23": {"parts": [crypto("wnaf.cpp", "PART=%d" % i, shards=4) for i in (3, 1, 2)] + [crypto("wnaf.cpp", "PART=%d" % i, "LOWMEM") for i in (3, 1)]},
    "C24": {"parts": [crypto("multiexp.cpp", "PART=%d" % i, shards=6) for i in (3, 1, 2)] + [crypto("multiexp.cpp", "PART=3", STD, "NDEBUG", shards=6)]},
    "C25": {"parts": [crypto("pairing.cpp", "PART=%d" % i, shards=6 if i == 1 else 2) for i in (1, 3, 2, 4)] + [crypto("pairing.cpp", "PART=%d" % i, STD) for i in (3, 2, 4)] + [crypto("pairing.cpp", "PART=5", probe=True)] +
            [crypto("pairing_tiny.cpp", "KIND=%d" % k, "Q_=%d" % q, "NR_=%d" % nr, "X0_=%d" % x0, "X1_=%d" % x1, "R_=%d" % r, "TR_=%d" % t, shards=3 if q == 7207 else 1) for k, q, nr, x0, x1, r, t in TINYPAIR]},
    "C26": {"parts": [crypto("pairing_types.cpp", "PART=%d" % i) for i in (1, 2, 3, 4, 5)]},
    "C27": {"parts": [crypto("traits.cpp", "PART=%d" % i, flags=["-O0", "-DPART=%d" % i]) for i in (3, 1, 2)]},
    "C28": {"parts": [crypto("random_elem.cpp", shards=2)]},
    "C29": {"parts": [crypto("h2c.cpp", "PART=2", shards=2), crypto("h2c.cpp", "PART=1"), crypto("h2c.cpp", "PART=2", STD, shards=2)]},
    "C30": {"parts": [crypto("marshal.cpp", "PART=1", shards=2, san=True), crypto("marshal.cpp", "PART=2", shards=6, san=True), crypto("marshal.cpp", "PART=2", STD, shards=4)]},
    "C32": {"parts": [crypto("mat_field.cpp", shards=4)]},
    "C33": {"parts": [dict(blas("const_eval.cpp", "PART=%d" % i, probe=True), san=False) for i in (2, 4, 1, 3)] +
            [dict(blas("const_eval.cpp", "PART=%d" % i, "BIG=1", probe=True, thorough_only=True), san=False) for i in (2, 4, 1, 3)]},
    "C31": {"parts": [crypto("primes.cpp", shards=8), crypto("primes.cpp", "NDEBUG", shards=8)]},
}
