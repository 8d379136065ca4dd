#!/usr/bin/python3
"""C22: drives the instrumented Python module. Every call is compared to the same call made directly in C++ (pyref.cpp) and repeated with
other representations of its arguments; memory, reference counts and lifetimes are watched. Same command line and event log as the C++ harnesses."""
import sys, os, ctypes, gc, random, struct, warnings
import numpy as np
warnings.simplefilter("ignore"); np.seterr(all="ignore")
A = {}
i = 1
while i < len(sys.argv): A[sys.argv[i].lstrip("-")] = sys.argv[i + 1] if i + 1 < len(sys.argv) else ""; i += 2
sys.path.insert(0, A["module"])
import gridpp
L = ctypes.CDLL(os.path.join(A["module"], "_gridpp_swig.so"))
cur = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes; cur.restype = ctypes.c_size_t
class CArg(ctypes.Structure): _fields_ = [("nd", ctypes.c_int), ("s", ctypes.c_int * 3), ("d", ctypes.c_void_p)]
L.pyref_call.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_int]; L.pyref_msg.restype = ctypes.c_char_p
L.pyref_outinfo.argtypes = [ctypes.c_int, ctypes.c_void_p]; L.pyref_outdata.argtypes = [ctypes.c_int, ctypes.c_void_p]
F32 = np.float32

# ---- what is called: C++ signature, meaning of each argument, defaults of the last arguments.
# g,G grids; p,q points; k tree; s structure; o point; upper-case letters = array with those dimensions (Y,X,V,W grids; N,M points; E members; T times; C curve; K kink)
# suffix: + positive, % 0..1, # sorted, ^ integer array, * coordinates
SPEC = """
optimal_interpolation(g, m, p, v, v, v, s, i, b)|g YX p N N+ N s n b|1
optimal_interpolation(p, v, p, v, v, v, s, i, b)|q M p N N+ N s n b|1
optimal_interpolation_full(g, m, m, p, v, v, v, v, s, i, om, b)|g YX YX+ p N N+ N N+ s n b|1
optimal_interpolation_full(p, v, v, p, v, v, v, v, s, i, ov, b)|q M M+ p N N+ N N+ s n b|1
optimal_interpolation_ensi(g, t, p, v, v, m, s, i, b)|g YXE p N N+ NE s n b|1
optimal_interpolation_ensi(p, m, p, v, v, m, s, i, b)|q ME p N N+ NE s n b|1
optimal_interpolation_ensi_multi_ebesc(g, m, t, p, m, v, m, s, i, b)|g YX+ YXE p NE N+ NE s n b|1
optimal_interpolation_ensi_multi_utem(p, v, m, m, p, v, v, m, m, s, i, b)|q M+ ME ME p N N+ NE NE s n b|1
local_distribution_correction(g, m, p, v, v, s, f, f, i)|g YX p N N s z z n|0
local_distribution_correction(g, m, p, m, m, s, f, f, i)|g YX p TN TN s z z n|0
fill(g, m, p, v, f, b)|g YX p N+ x b
doping_square(g, m, p, v, iv, f)|g YX p N N^ x|nan
doping_circle(g, m, p, v, v, f)|g YX p N N+ x|nan
gamma_inv(v, v, v)|N% N+ N+
neighbourhood(m, i, st)|YX h st
neighbourhood(t, i, st)|YXE h st
neighbourhood_quantile(m, f, i)|YX z h
neighbourhood_quantile(t, f, i)|YXE z h
neighbourhood_quantile_fast(m, f, i, v)|YX z h C#
neighbourhood_quantile_fast(t, f, i, v)|YXE z h C#
neighbourhood_quantile_fast(m, m, i, v)|YX YX% h C#
neighbourhood_quantile_fast(t, m, i, v)|YXE YX% h C#
neighbourhood_brute_force(m, i, st)|YX h st
neighbourhood_brute_force(t, i, st)|YXE h st
get_neighbourhood_thresholds(m, i)|YX n
get_neighbourhood_thresholds(t, i)|YXE n
calc_gradient(m, m, gt, i, i, f, f)|YX YX gt h h x x|2 nan 0
neighbourhood_search(m, m, i, f, f, f, im)|YX YX h x x x YX^|E2
quantile_mapping_curve(v, v, ov, vec)|N N C%|E1
metric_optimizer_curve(v, v, v, me, ov)|N N C# me
apply_curve(f, v, v, ex, ex)|x C# C# ex ex
apply_curve(v, v, v, ex, ex)|N C# C# ex ex
apply_curve(m, v, v, ex, ex)|YX C# C# ex ex
apply_curve(m, t, t, ex, ex)|YX YXC YXC ex ex
monotonize_curve(vec, vec, ov)|C C
get_optimal_threshold(v, v, f, me)|N N x me
calc_score(f, f, f, f, me)|y y y y me
calc_score(v, v, f, me)|N N x me
calc_score(v, v, f, f, me)|N N x x me
downscaling(g, g, m, ds)|g G YX ds
downscaling(g, g, t, ds)|g G TYX ds
downscaling(g, p, m, ds)|g p YX ds
downscaling(g, p, t, ds)|g p TYX ds
nearest(g, g, m)|g G YX
nearest(g, g, t)|g G TYX
nearest(g, p, m)|g p YX
nearest(g, p, t)|g p TYX
nearest(p, p, v)|p q N
nearest(p, p, m)|p q TN
nearest(p, g, v)|p g N
nearest(p, g, m)|p g TN
downscale_probability(g, g, t, m, co)|g G YXE VW co
mask_threshold_downscale_consensus(g, g, t, t, t, m, co, cst)|g G YXE YXE YXE VW co st
mask_threshold_downscale_quantile(g, g, t, t, t, m, co, f)|g G YXE YXE YXE VW co z
bilinear(g, g, m)|g G YX
bilinear(g, g, t)|g G TYX
bilinear(g, p, m)|g p YX
bilinear(g, p, t)|g p TYX
simple_gradient(g, g, m, f, ds)|g G YX x ds|0
simple_gradient(g, g, t, f, ds)|g G TYX x ds|0
simple_gradient(g, p, m, f, ds)|g p YX x ds|0
simple_gradient(g, p, t, f, ds)|g p TYX x ds|0
full_gradient(g, g, m, m, m, ds)|g G YX YX YX ds|E2 0
full_gradient(g, g, t, t, t, ds)|g G TYX TYX TYX ds|0
full_gradient(g, p, m, m, m, ds)|g p YX YX YX ds|0
full_gradient(g, p, t, t, t, ds)|g p TYX TYX TYX ds|0
full_gradient_debug(g, g, m, m, m, ds)|g G YX YX YX ds|E2 0
smart(g, g, m, i, s)|g G YX n s
count(g, p, f)|g p r
count(g, g, f)|g G r
count(p, g, f)|p g r
count(p, p, f)|p q r
distance(g, p, i)|g p n|1
distance(g, g, i)|g G n|1
distance(p, g, i)|p g n|1
distance(p, p, i)|p q n|1
fill_missing(m)|YX
gridding(g, p, v, f, i, st)|g p N r n st
gridding(p, p, v, f, i, st)|q p N r n st
gridding_nearest(g, p, v, i, st)|g p N n st
gridding_nearest(p, p, v, i, st)|q p N n st
neighbourhood_score(g, p, m, v, i, me, f)|g p YX N h me x
dewpoint(f, f)|y z
dewpoint(v, v)|N+ N%
pressure(f, f, f, f)|x x y y|288.15
pressure(v, v, v, v)|N N N+ N+
sea_level_pressure(f, f, f, f, f)|y x y z y|nan nan
sea_level_pressure(v, v, v, v, v)|N+ N N+ N% N+
qnh(f, f)|y x
qnh(v, v)|N+ N
relative_humidity(f, f)|y y
relative_humidity(v, v)|N+ N+
wetbulb(f, f, f)|y y z
wetbulb(v, v, v)|N+ N+ N%
wind_speed(f, f)|x x
wind_speed(v, v)|N N
wind_direction(f, f)|x x
wind_direction(v, v)|N N
is_valid(f)|x
calc_statistic(v, st)|N st
calc_statistic(m, st)|YX st
calc_quantile(v, f)|N z
calc_quantile(m, f)|YX z
calc_quantile(t, m)|YXE YX%
convert_coordinates(v, v, ct, ov, ov, ov)|N* N* ct
convert_coordinates(f, f, ct, float&, float&, float&)|x x ct
is_valid_lat(f, ct)|x ct
is_valid_lon(f, ct)|x ct
num_missing_values(m)|YX
get_lower_index(f, v)|x C#
get_upper_index(f, v)|x C#
interpolate(f, v, v)|x C# C
interpolate(v, v, v)|N C# C
init_ivec2(i, i, i)|n n n
init_vec2(i, i, f)|n n x|nan
init_ivec3(i, i, i, i)|n n n n
init_vec3(i, i, i, f)|n n n x|nan
calc_even_quantiles(v, i)|N n
window(m, i, st, b, b, b)|YX n st b b b|0 0 1
compatible_size(g, m)|g YX
compatible_size(g, t)|g TYX
compatible_size(p, v)|p N
compatible_size(p, m)|p TN
compatible_size(m, m)|YX VW
compatible_size(m, t)|YX TYX
compatible_size(t, t)|TYX TYX
compatible_coordinates(g, g)|g G
compatible_coordinates(g, p)|g p
compatible_coordinates(p, p)|p q
point_in_rectangle(const Point&, const Point&, const Point&, const Point&, const Point&)|o o o o o
test_vec_input(v)|N
test_ivec_input(iv)|N^
test_vec2_input(m)|YX
test_vec3_input(t)|YXE
test_vec_argout(ov)|
test_vec2_argout(om)|
test_vec_output()|
test_ivec_output()|
test_vec2_output()|
test_ivec2_output()|
test_vec3_output()|
test_ivec3_output()|
deg2rad|x
rad2deg|x
calc_distance|x x x x ct|0
calc_distance_fast|x x x x ct|0
calc_distance_point|o o
KDTree.get_nearest_neighbour|k y y b|1
KDTree.get_neighbours|k y y r b|1
KDTree.get_neighbours_with_distance|k y y r b|1
KDTree.get_num_neighbours|k y y r b|1
KDTree.get_closest_neighbours|k y y n b|1
KDTree.get_lats|k
KDTree.get_lons|k
KDTree.size|k
KDTree.get_x|k
KDTree.get_y|k
KDTree.get_z|k
KDTree.get_coordinate_type|k
Points.get_nearest_neighbour|p y y b|1
Points.get_neighbours|p y y r b|1
Points.get_neighbours_with_distance|p y y r b|1
Points.get_num_neighbours|p y y r b|1
Points.get_closest_neighbours|p y y n b|1
Points.get_lats|p
Points.get_lons|p
Points.get_elevs|p
Points.get_lafs|p
Points.size|p
Points.get_in_domain_indices|p g
Points.get_in_domain|p g
Points.get_coordinate_type|p
Points.get_point|p n
Points.subset|p N^
Grid.get_nearest_neighbour|g y y b|1
Grid.get_neighbours|g y y r b|1
Grid.get_neighbours_with_distance|g y y r b|1
Grid.get_num_neighbours|g y y r b|1
Grid.get_closest_neighbours|g y y n b|1
Grid.get_box|g y y
Grid.to_points|g
Grid.get_lats|g
Grid.get_lons|g
Grid.get_elevs|g
Grid.get_lafs|g
Grid.size|g
Grid.get_coordinate_type|g
Grid.get_point|g n n
Transform.forward(f)|a x
Transform.forward(v)|a N
Transform.forward(m)|a YX
Transform.forward(t)|a YXE
Transform.backward(f)|a x
Transform.backward(v)|a N
Transform.backward(m)|a YX
Transform.backward(t)|a YXE
Structure.corr|s o o
Structure.corr_background|s o o
Structure.localization_distance|s o
"""
SPECS = []
for ln in SPEC.strip().split("\n"):
    q = ln.split("|"); SPECS.append((q[0], q[1].split(), q[2].split() if len(q) > 2 else []))
COUNT = {}
for n, _, _ in SPECS: COUNT[n.split("(")[0]] = COUNT.get(n.split("(")[0], 0) + 1
ENUMS = dict(st=[0, 10, 20, 30, 50, 60, 70, 80, 40, -1], me=[0, 1, 20, 30, 40, 50], ds=[0, 1], ex=[0, 10, 20, 30, 40], co=[0, 10, 20, 30], ct=[0, 0, 1], gt=[0, 10])

class Viol(Exception): pass
class Case:
    def __init__(s, id, seed): s.id = id; s.r = random.Random((seed * 1000003 + 17) * 1000000007 + id * 7919 + 3); s.checks = s.live = 0; s.hash = 1469598103934665603; s.nv = 0; s.text = ""
    def viol(s, key, detail):
        s.nv += 1
        if s.nv <= 4: line("V\t%d\t%s\t%s" % (s.id, key, detail[:1500]))
    def ok(s, cond, key, detail):
        s.checks += 1; s.live += 1
        if not cond: s.viol(key, detail() if callable(detail) else detail)
        return cond
    def h(s, x): s.hash = ((s.hash ^ (hash(x) & 0xffffffffffff)) * 1099511628211) & 0xffffffffffffffff
def line(t): os.write(FD, (t.replace("\n", " ") + "\n").encode("utf-8", "replace"))

# ---- values: ("arr", float64 array, isint), ("num", x, type), ("grid", [4 arr], type), ...
def arr(c, dims, kind, S):
    r = c.r; sh = tuple(S[d] for d in dims); n = int(np.prod(sh)); isint = kind == "^"
    mode = r.random()
    if isint: v = [r.randint(0, 4) for _ in range(n)]
    elif kind == "+": v = [abs(r.gauss(0, 3)) + 0.25 for _ in range(n)]
    elif kind == "%": v = [r.random() for _ in range(n)]
    elif kind == "*": v = [r.uniform(-80, 80) for _ in range(n)]
    else: v = [r.gauss(0, 10) for _ in range(n)]
    a = np.array(v, dtype=np.float64).reshape(sh)
    if not isint and kind not in "%":
        if mode < 0.2: a = np.round(a)
        elif mode < 0.45: a = np.round(a * 4) / 4
        elif mode < 0.5 and n: a[...] = a.flat[0]
    if kind == "#": a = np.sort(a, axis=-1)
    if not isint and kind in ("", "+") and n and mode > 0.6 and r.random() < 0.3:
        for _ in range(r.randint(1, 3)): a.flat[r.randrange(n)] = r.choice([np.nan, np.nan, np.inf, -np.inf] if kind == "" else [np.nan])
    return ("arr", a, isint)
def f32(x): return float(F32(x))
def coords(c, sh, S):
    r = c.r; o = S["o"]
    if len(sh) == 2:
        la = np.add.outer(np.arange(sh[0]) * 0.5, np.arange(sh[1]) * r.choice([0, 0.01])) + o; lo = np.add.outer(np.arange(sh[0]) * r.choice([0, 0.01]), np.arange(sh[1]) * 0.5) + 5
    else: la = np.array([o + r.uniform(-0.5, 2) for _ in range(sh[0])]); lo = np.array([5 + r.uniform(-0.5, 2) for _ in range(sh[0])])
    e = np.array([r.uniform(0, 300) for _ in range(int(np.prod(sh)))]).reshape(sh); f = np.array([r.random() for _ in range(int(np.prod(sh)))]).reshape(sh)
    if r.random() < 0.3: e = np.round(e); f = np.round(f * 4) / 4
    return [("arr", x, False) for x in (la.astype(np.float64), lo.astype(np.float64), e, f)]
def mismatch(c, sh): 
    sh = list(sh)
    if sh: sh[c.r.randrange(len(sh))] += c.r.choice([-1, 1])
    return tuple(max(0, x) for x in sh)
def gen(c, tok, S):
    r = c.r; t = tok[0]
    if tok in ENUMS: return ("num", r.choice(ENUMS[tok]), "i")
    if t.isupper() and tok not in ("G",):
        k = tok[-1] if tok[-1] in "+%#^*" else ""
        dims = tok.rstrip("+%#^*")
        if S["bad"] and r.random() < 0.4:
            S = dict(S); d = r.choice(dims); S[d] = max(0, S[d] + r.choice([-1, 1]))
        return arr(c, dims, k, S)
    if t in "gG":
        sh = (S["Y"], S["X"]) if t == "g" else (S["V"], S["W"]); cs = coords(c, sh, S)
        if S["bad"] and r.random() < 0.2: q = r.randrange(4); cs[q] = ("arr", np.zeros(mismatch(c, sh)), False)
        return ("grid", cs, r.choice([0, 0, 0, 1]) if S["ct"] is None else S["ct"])
    if t in "pqk":
        sh = (S["M"] if t == "q" else S["N"],); cs = coords(c, sh, S)
        if S["bad"] and r.random() < 0.2: q = r.randrange(2 if t == "k" else 4); cs[q] = ("arr", np.zeros(mismatch(c, sh)), False)
        return ("tree" if t == "k" else "points", cs[:2] if t == "k" else cs, r.choice([0, 0, 0, 1]) if S["ct"] is None else S["ct"])
    if t == "s":
        kd = r.choice([0, 1, 2, 3, 4, 5, 10, 12, 20])
        p = [r.choice([50000, 100000.0, 1e5 / 3]), r.choice([0, 100, 33.3]), r.choice([0, 0.5]), r.choice([200000.0, 1000]) if kd < 20 else 0.01, 1000.0]
        ex = None
        if kd == 20:
            g = ("grid", coords(c, (S["Y"], S["X"]), S), 0)
            ex = (g, [("arr", np.abs(arr(c, "YX", "+", S)[1]) * 1000 + 1000, False), arr(c, "YX", "+", S), arr(c, "YX", "+", S)])
        return ("struct", kd, p, ex)
    if t == "a":
        k = r.randint(0, 4); p = {2: [r.choice([0.5, 0.1, 1 / 3, 0]), 0], 3: [1.5, 0.5], 4: [1.2, 2.5]}.get(k, [0, 0]); return ("trans", k, p)
    if t == "o": return ("point", [S["o"] + r.random(), 5 + r.random(), r.uniform(0, 100), r.random()], 0)
    if t == "x": return ("num", r.choice([r.gauss(0, 10), round(r.gauss(0, 10)), 0.1, 0, 1e10]), "f")
    if t == "y": return ("num", r.choice([abs(r.gauss(20, 300)), r.randint(1, 60), 60.25]), "f")
    if t == "z": return ("num", r.choice([0, 0.5, 1, r.random(), 1 / 3]), "f")
    if t == "r": return ("num", r.choice([10000, 50000.0, 123456.789, 0.7]), "f")
    if t == "n": return ("num", r.randint(0, 5), "i")
    if t == "h": return ("num", r.randint(0, 2), "i")
    if t == "b": return ("num", r.choice([0, 1]), "b")
    raise SystemExit(3)
def scene(c):
    r = c.r
    S = {d: r.randint(1, 4) for d in "YXVWNMET"}; S["C"] = r.randint(1, 5); S["Y"] = r.randint(1, 5); S["N"] = r.randint(1, 6)
    if r.random() < 0.08: S[r.choice("YXNMETC")] = 0
    if r.random() < 0.02: S["Y"] = S["X"] = 12; S["N"] = 40
    S["o"] = r.choice([60, 60.125, 0, -45.3]); S["bad"] = r.random() < 0.1; S["ct"] = r.choice([0, 0, 0, 0, 1]) if r.random() < 0.97 else None
    return S
def gen_args(c):
    name, toks, defs = c.r.choice(SPECS); S = scene(c)
    args = [gen(c, t, S) for t in toks]; drop = 0
    if defs and c.r.random() < 0.4:
        drop = c.r.randint(1, len(defs))
        for q in range(drop):
            d = defs[len(defs) - 1 - q]; t = args[len(args) - 1 - q]
            v = ("arr", np.zeros((0,) if d == "E1" else (0, 0)), toks[len(args) - 1 - q][-1] == "^") if d[0] == "E" else ("num", float(d) if "." in d or d == "nan" else int(d), t[2])
            args[len(args) - 1 - q] = v
    return name, args, drop

# ---- to C++
def flat(v, out):
    k = v[0]
    def num(x): out.append(np.array(x, dtype=np.float64))
    if k == "arr": out.append(np.ascontiguousarray(v[1] if v[2] else v[1].astype(F32).astype(np.float64)))
    elif k == "num": num(float(v[1]) if v[2] != "f" else f32(v[1]))
    elif k in ("grid", "points", "tree"):
        for a in v[1]: flat(a, out)
        num(v[2])
    elif k == "struct":
        num(v[1]); [num(f32(x)) for x in v[2]]
        if v[3]: flat(v[3][0], out); [flat(a, out) for a in v[3][1]]
    elif k == "trans": num(v[1]); [num(f32(x)) for x in v[2]]
    elif k == "point": [num(f32(x)) for x in v[1]]; num(v[2])
def cref(name, args):
    out = []
    for a in args: flat(a, out)
    ca = (CArg * max(1, len(out)))()
    keep = []
    for q, a in enumerate(out):
        ca[q].nd = a.ndim
        for d in range(a.ndim): ca[q].s[d] = a.shape[d]
        if a.size == 0: a = np.zeros(1)
        keep.append(a); ca[q].d = a.ctypes.data
    rc = L.pyref_call(name.encode(), ca, len(out))
    if rc == -1 or rc == 2 and L.pyref_msg().startswith(b"pyref"): sys.stderr.write("\nerror: pyref %s %s\n" % (name, L.pyref_msg())); sys.exit(3)
    if rc: return rc, L.pyref_msg().decode("utf-8", "replace")
    res = []
    for q in range(L.pyref_nout()):
        inf = (ctypes.c_int * 6)(); L.pyref_outinfo(q, inf)
        d = np.zeros(max(1, inf[5])); L.pyref_outdata(q, d.ctypes.data); d = d[:inf[5]]
        sh = tuple(inf[1:1 + inf[0]])
        res.append((d.reshape(sh), bool(inf[4])))
    return 0, res

# ---- to Python
class Rep:
    """One representation of the arguments; remembers what it made so that inputs can be checked afterwards."""
    def __init__(s, c, mode, listok=True): s.c = c; s.mode = mode; s.made = []; s.log = []; s.listok = listok
    def array(s, v):
        a, isint = v[1], v[2]; c = s.c; r = c.r; base = np.int32 if isint else F32
        if s.mode == "plain": x = a.astype(base); s.made.append((x, x.copy(), "plain")); return x
        opts = ["f4", "f8", "be4", "be8", "fortran", "stride", "reverse", "transposed", "readonly", "unaligned", "offset"] if not isint else ["i4", "i8", "be4", "i2", "u1", "fortran", "stride", "reverse", "readonly", "f8"]
        fin = np.isfinite(a).all() if a.size else True
        if not isint:
            if fin and (a == np.round(a)).all() and (np.abs(a) < 30000).all(): opts += ["i8", "i4", "i2", "u1" if (a >= 0).all() and (a < 256).all() else "i4"]
            if ((a * 4 == np.round(a * 4)) | ~np.isfinite(a)).all() and not (np.isfinite(a) & (np.abs(a) > 500)).any(): opts += ["f2"]
            if fin and ((a == 0) | (a == 1)).all(): opts += ["bool"]
        if s.listok or a.size: opts += ["list", "tuple", "vector", "mixed", "list", "vector"]
        if a.size and (a == a.flat[0]).all(): opts += ["broadcast"]
        o = r.choice(opts)
        def store(x): s.made.append((x, x.copy(), o)); return x
        s.log.append(o)
        if o in ("f4", "i4", "f8", "i8", "i2", "u1", "f2"): return store(a.astype(o))
        if o == "bool": return store(a.astype(bool))
        if o == "be4": return store(a.astype(">i4" if isint else ">f4"))
        if o == "be8": return store(a.astype(">f8"))
        x = a.astype(r.choice([base, np.int64 if isint else np.float64]))
        if o == "fortran": return store(np.asfortranarray(x))
        if o == "readonly": x.flags.writeable = False; return store(x)
        if o == "stride":
            big = np.full(tuple(2 * d + 1 for d in x.shape), 99, x.dtype); v_ = big[tuple(slice(0, 2 * d, 2) for d in x.shape)]; v_[...] = x; return store(v_)
        if o == "reverse":
            y = x[tuple(slice(None, None, -1) for _ in x.shape)].copy(); return store(y[tuple(slice(None, None, -1) for _ in x.shape)])
        if o == "transposed": return store(x.T.copy().T)
        if o == "offset":
            big = np.full(tuple(d + 3 for d in x.shape), 99, x.dtype); v_ = big[tuple(slice(1, 1 + d) for d in x.shape)]; v_[...] = x; return store(v_)
        if o == "unaligned":
            buf = np.zeros(x.nbytes + 1, np.uint8); v_ = np.ndarray(x.shape, x.dtype, buffer=buf.data, offset=1); v_[...] = x; return store(v_)
        if o == "broadcast": return store(np.broadcast_to(x.flat[0], x.shape))
        l = (a.astype(int) if isint else a).tolist()
        if o == "list" or o == "mixed":
            if o == "mixed" and not isint: l = mixed(l)
            s.made.append((l, repr(l), o)); return l
        if o == "tuple": l = tup(l); s.made.append((l, repr(l), o)); return l
        if o == "vector":
            K = {(1, False): "FloatVector", (2, False): "FloatVector2", (3, False): "FloatVector3", (1, True): "IntVector", (2, True): "IntVector2"}[(a.ndim, isint)]
            x = getattr(gridpp, K)(l); s.made.append((x, vrep(x), o)); return x
    def num(s, v):
        x, t = v[1], v[2]
        if s.mode == "plain": return bool(x) if t == "b" else (float(x) if t == "f" else int(x))
        r = s.c.r
        if t == "f" and float(x) == int(x) if t == "f" and np.isfinite(x) else False: return r.choice([float(x), int(x), np.float64(x)])
        if t == "f": return r.choice([float(x), np.float64(x)])
        return bool(x) if t == "b" else int(x)
    def get(s, v):
        k = v[0]
        if k == "arr": return s.array(v)
        if k == "num": return s.num(v)
        if k == "grid":
            return gridpp.Grid(*[s.array(a) for a in v[1]], v[2])
        if k == "points": return gridpp.Points(*[s.array(a) for a in v[1]], v[2])
        if k == "tree": return gridpp.KDTree(*[s.array(a) for a in v[1]], v[2])
        if k == "point": return gridpp.Point(*v[1], v[2])
        if k == "struct":
            kd, p, ex = v[1:]
            if kd == 20: return gridpp.BarnesStructure(s.get(ex[0]), *[s.array(a) for a in ex[1]], p[3])
            K = ["BarnesStructure", "CressmanStructure", "SoarStructure", "ToarStructure", "PowerlawStructure", "LinearStructure"][kd % 10]
            o = getattr(gridpp, K)(*(p[:3] if kd % 10 == 1 else p[:4]))
            return gridpp.CrossValidation(o, p[4]) if kd >= 10 else o
        if k == "trans":
            return [lambda: gridpp.Identity(), lambda: gridpp.Log(), lambda: gridpp.BoxCox(v[2][0]), lambda: gridpp.StartedBoxCox(*v[2]), lambda: gridpp.Gamma(*v[2])][v[1]]()
def vrep(x): return repr([vrep(y) if hasattr(y, "__len__") else y for y in x])
def mixed(l): return [mixed(x) if isinstance(x, list) else (int(x) if np.isfinite(x) and x == int(x) else x) for x in l]
def tup(l): return tuple(tup(x) if isinstance(x, list) else x for x in l)
def target(name, objs):
    b = name.split("(")[0]
    if b == "deg2rad": return gridpp.KDTree.deg2rad, objs
    if b == "rad2deg": return gridpp.KDTree.rad2deg, objs
    if b in ("calc_distance", "calc_distance_point"): return gridpp.KDTree.calc_distance, objs
    if b == "calc_distance_fast": return gridpp.KDTree.calc_distance_fast, objs
    if "." in b: return getattr(objs[0], b.split(".")[1]), objs[1:]
    return getattr(gridpp, b), objs
def call(name, args, drop, rep):
    """('ok', flattened result, raw) or ('err', type, message)"""
    try:
        objs = [rep.get(a) for a in (args[:-drop] if drop else args)]
        f, objs = target(name, objs)
        rep.objs = objs
        res = f(*objs)
    except Exception as e:
        if isinstance(e, (AttributeError, NameError)) and not str(e).startswith("module") or isinstance(e, SystemError): raise
        return "err", type(e).__name__, str(e)
    return "ok", res, None
def flatten(res):
    """list of (float64 array, isint, raw)"""
    if isinstance(res, (list, tuple)): return [y for x in res for y in flatten(x)]
    if isinstance(res, np.ndarray): return [(res.astype(np.float64), res.dtype.kind in "iu", res)]
    if isinstance(res, gridpp.Points): return flatten([res.get_lats(), res.get_lons(), res.get_elevs(), res.get_lafs(), res.get_coordinate_type()])
    if isinstance(res, gridpp.Point): return flatten([res.lat, res.lon, res.elev, res.laf, res.x, res.y, res.z, res.type])
    if isinstance(res, (bool, int, float)): return [(np.array(float(res)), not isinstance(res, float), res)]
    raise Viol("result of type %s" % type(res))
def same(a, b): return a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())
def show(args):
    def one(v):
        if v[0] == "arr": return np.array2string(v[1], threshold=12, precision=6).replace("\n", "")
        if v[0] == "num": return str(v[1])
        if v[0] in ("grid", "points", "tree"): return "%s%s" % (v[0], v[1][0][1].shape)
        return "%s%s" % (v[0], v[1])
    return "; ".join(one(a) for a in args)
def check_result(c, name, r, rc, ref, how, args):
    key = name.split("(")[0] + ":" + how
    if rc == 3: return c.ok(r[0] == "err", key + ":exception", lambda: "no exception")
    if rc:
        if not c.ok(r[0] == "err", key + ":exception", lambda: "C++ throws %d %s, python returned %r; %s %s" % (rc, ref, r[1], name, show(args))): return
        c.ok(r[1] == ("ValueError" if rc == 1 else "RuntimeError"), key + ":exception-type", lambda: "C++ throws %d (%s), python %s (%s); %s" % (rc, ref, r[1], r[2], name))
        c.ok(r[2] == ref, key + ":exception-text", lambda: "C++ '%s', python '%s'" % (ref, r[2])); return
    if not c.ok(r[0] == "ok", key + ":raised", lambda: "python raised %s %s, C++ returned; %s %s" % (r[1], r[2], name, show(args))): return
    fl = flatten(r[1])
    if not c.ok(len(fl) == len(ref), key + ":outputs", lambda: "%d outputs, C++ %d" % (len(fl), len(ref))): return
    for q, ((x, xi, raw), (y, yi)) in enumerate(zip(fl, ref)):
        c.ok(x.shape == y.shape, key + ":shape", lambda: "output %d shape %s, C++ %s; %s %s" % (q, x.shape, y.shape, name, show(args)))
        c.ok(same(x, y), key + ":values", lambda: "output %d %s, C++ %s; %s %s" % (q, str(x)[:200], str(y)[:200], name, show(args)))
        if isinstance(raw, np.ndarray):
            c.ok(raw.dtype == (np.int32 if yi else F32), key + ":dtype", lambda: str(raw.dtype))
            c.ok(raw.flags.owndata and raw.base is None and raw.flags.writeable, key + ":owner", lambda: str(raw.flags))
        else: c.ok(xi == yi, key + ":type", lambda: repr(raw))
        c.h(x.tobytes())
def inputs_same(c, rep, name):
    for x, was, o in rep.made:
        if isinstance(x, np.ndarray): good = x.shape == was.shape and x.dtype == was.dtype and x.tobytes() == was.tobytes()
        elif o == "vector": good = vrep(x) == was
        else: good = repr(x) == was
        c.ok(good, name.split("(")[0] + ":input-changed:" + o, lambda: "input %s is now %s" % (str(was)[:200], str(x)[:200]))

def k_call(c):
    name, args, drop = gen_args(c)
    rc, ref = cref(name, args)
    rep = Rep(c, "plain"); r = call(name, args, drop, rep)
    check_result(c, name, r, rc, ref, "plain", args); inputs_same(c, rep, name)
    for _ in range(2):
        rp = Rep(c, "vary", COUNT[name.split("(")[0]] == 1 and name.split(".")[0] not in ("Transform",))
        r2 = call(name, args, drop, rp)
        nv = c.nv; check_result(c, name, r2, rc, ref, "varied", args)
        if c.nv > nv: c.viol("representation", "%s %s" % (name, rp.log))
        inputs_same(c, rp, name)
        if r2[0] == "ok":
            # the result must not depend on the inputs any more
            arrs = [x for x in flatten(r2[1]) if isinstance(x[2], np.ndarray)]
            keep = [x[0] for x in arrs]
            for x, was, o in rp.made:
                if isinstance(x, np.ndarray) and x.flags.writeable and x.size: x[...] = 1
            rp.objs = None; rp.made = []
            del r2; churn = [np.full(3, 7, F32) for _ in range(4)]; del churn
            for (x, xi, raw), k in zip(arrs, keep): c.ok(same(raw.astype(np.float64), k), name.split("(")[0] + ":aliases", lambda: "result changed after its inputs were changed and deleted")
        c.h(tuple(rp.log))
    c.text = "%s %s -> %s" % (name, show(args), str(ref)[:160])

class Evil:
    def __init__(s, n, how): s.n = n; s.how = how; s.k = 0
    def __len__(s): return -1 if s.how == "neg" else s.n
    def __iter__(s): return (s[q] for q in range(s.n))
    def __getitem__(s, q):
        s.k += 1
        if s.how == "raise" and s.k > 1: raise KeyError("evil")
        if q >= s.n: raise IndexError(q)
        return [1.0] if s.how == "nest" else "x" if s.how == "type" and s.k > 1 else 1.0
    def __float__(s): raise OverflowError("evil")
class EvilArray(np.ndarray): pass
def hostile(c):
    r = c.r
    return r.choice([lambda: None, lambda: "abc", lambda: "", lambda: b"abc", lambda: 3, lambda: 2.5, lambda: 10 ** 30, lambda: -1, lambda: float("nan"), lambda: {1: 2}, lambda: {1, 2}, lambda: object(), lambda: [None], lambda: [[None]],
        lambda: [1, "a"], lambda: [[1, 2], [3]], lambda: [[1, "a"]], lambda: [[[1, None]]], lambda: [[[1, 2], [3]], [[4]]], lambda: [1, [2]], lambda: [[1], 2], lambda: [], lambda: [[]], lambda: [[[]]],
        lambda: np.array(["a", "b"]), lambda: np.array([["a", "b"]]), lambda: np.array([[["a"]]]), lambda: np.array([1, None], dtype=object), lambda: np.array([[1, "x"]], dtype=object), lambda: np.array([[[1.5, "x"]]], dtype=object), lambda: np.array([1, 2.5], dtype=object),
        lambda: np.array([1 + 2j]), lambda: np.array([[1 + 2j, 1]]), lambda: np.zeros(2, dtype=[("a", "f4"), ("b", "i4")]), lambda: np.zeros((2, 2), dtype=[("a", "f4")]), lambda: np.array(["2020-01-01"], dtype="datetime64[s]"), lambda: np.array([b"ab"]),
        lambda: np.zeros(()), lambda: np.array(5.0), lambda: np.zeros((1, 1, 1, 1)), lambda: np.zeros((2, 0)), lambda: np.zeros((0, 2)), lambda: np.zeros((0, 2, 3)), lambda: np.zeros((2, 0, 3)), lambda: np.zeros((2, 3, 0)), lambda: np.zeros(0),
        lambda: np.zeros((2, 3)).view(EvilArray), lambda: np.matrix([[1.0, 2]]), lambda: np.ma.masked_array([1.0, 2], [True, False]), lambda: np.float32(2), lambda: np.int64(2), lambda: np.array([1e300]), lambda: [1e300], lambda: [[1e300]], lambda: [2 ** 70], lambda: np.array([2 ** 40]),
        lambda: Evil(3, "raise"), lambda: Evil(3, "type"), lambda: Evil(2, "nest"), lambda: Evil(2, "neg"), lambda: Evil(3, "ok"), lambda: range(3), lambda: (x for x in [1.0, 2]), lambda: gridpp.FloatVector([1, 2]), lambda: gridpp.FloatVector2([[1, 2], [3]]), lambda: gridpp.IntVector([1]), lambda: gridpp.DoubleVector([1.5]),
        lambda: gridpp.Grid(), lambda: gridpp.Points(), lambda: gridpp.Grid.__new__(gridpp.Grid), lambda: gridpp.Points.__new__(gridpp.Points), lambda: gridpp.BarnesStructure.__new__(gridpp.BarnesStructure), lambda: gridpp.Identity(), lambda: gridpp.BarnesStructure(1000.0), lambda: gridpp.Grid, lambda: gridpp, lambda: gridpp.Point(60, 5), lambda: np.array([np.nan]), lambda: True, lambda: type("P", (), {"this": 5})(),
        lambda: np.recarray((2,), dtype=[("x", "f4")]), lambda: np.array([[]]), lambda: memoryview(b"abcd"), lambda: bytearray(b"ab")])()
ROWWISE = ("Transform.forward", "Transform.backward", "calc_statistic", "num_missing_values", "test_vec2_input", "test_vec3_input")
def ragged(o):
    """nested lists that are not rectangular: the C++ functions are defined for rectangular arrays only"""
    try:
        if isinstance(o, (str, bytes, np.ndarray)) or not hasattr(o, "__len__") or isinstance(o, Evil): return False
        n = [len(x) if hasattr(x, "__len__") else -1 for x in o]
        return len(set(n)) > 1 or any(ragged(x) for x in o) or (n and n[0] > 0 and len({len(y) for x in o for y in x if hasattr(y, "__len__")}) > 1)
    except Exception: return False
def k_hostile(c):
    name, args, drop = gen_args(c); rep = Rep(c, c.r.choice(["plain", "vary"]), False)
    desc = ""
    try:
        objs = [rep.get(a) for a in (args[:-drop] if drop else args)]
        bound = "." in name.split("(")[0]
        for _ in range(c.r.randint(1, 2)):
            m = c.r.random()
            if m < 0.85 and len(objs) > bound: q = c.r.randrange(bound, len(objs)); objs[q] = hostile(c); desc += " arg%d=%s" % (q, repr(objs[q])[:60])
            elif m < 0.93: objs.append(hostile(c)); desc += " extra"
            elif len(objs) > bound: objs.pop(); desc += " fewer"
        # a huge size argument is the library's business, not the binding's
        objs = [o if not (isinstance(o, int) and abs(o) > 1000 and abs(o) < 2 ** 31) else 3 for o in objs]
        if name.split("(")[0] not in ROWWISE and any(ragged(o) for o in objs): return
        f, objs = target(name, objs)
    except Exception as e:
        if isinstance(e, SystemError): c.viol(name + ":SystemError", str(e) + desc)
        return
    refs = [sys.getrefcount(o) for o in objs]
    try:
        res = f(*objs); got = "returned"
        for x, xi, raw in flatten(res):
            if isinstance(raw, np.ndarray): raw.sum(); c.ok(raw.flags.owndata, name + ":owner", desc)
    except Viol: got = "object"
    except SystemError as e: c.viol(name.split("(")[0] + ":SystemError", str(e) + desc); got = "SystemError"
    except Exception as e: got = type(e).__name__; e.__traceback__ = None; del e
    res = None; x = xi = raw = None
    c.ok([sys.getrefcount(o) for o in objs] == refs, name.split("(")[0] + ":refcount", lambda: "references %s before, %s after;%s" % (refs, [sys.getrefcount(o) for o in objs], desc))
    inputs_same(c, rep, name); c.h(got + desc + name); c.text = name + desc + " -> " + got

def k_leak(c):
    name, args, drop = gen_args(c); rep = Rep(c, c.r.choice(["plain", "vary", "vary"]), False)
    # count() keeps no state; functions that print are silenced by the runner
    try:
        objs = [rep.get(a) for a in (args[:-drop] if drop else args)]
        if c.r.random() < 0.3 and objs:
            q = c.r.randrange("." in name.split("(")[0], len(objs)) if len(objs) > ("." in name.split("(")[0]) else None
            if q is not None: objs[q] = hostile(c)
        objs = [o if not (isinstance(o, int) and abs(o) > 1000 and abs(o) < 2 ** 31) else 3 for o in objs]
        if name.split("(")[0] not in ROWWISE and any(ragged(o) for o in objs): return
        f, objs = target(name, objs)
    except Exception: return
    # generators are used up by the first call; numpy keeps memory of its own when casting structured arrays
    if any(isinstance(o, type((x for x in [1]))) or isinstance(o, np.ndarray) and o.dtype.kind == "V" for o in objs): return
    def once():
        try: f(*objs)
        except Exception as e: e.__traceback__ = None
    def build():
        for a in args:
            if a[0] not in ("arr", "num"):
                try: Rep(c, "plain").get(a)
                except Exception as e: e.__traceback__ = None
    act = once if c.r.random() < 0.7 else build
    for _ in range(4): act()
    gc.collect(); gc.disable()
    refs = [sys.getrefcount(o) for o in objs]
    for N in (12, 60, 250):
        # a leak grows with the number of calls, each time it is looked at
        grow = []
        for rnd in range(3):
            gc.collect(); s = cur()
            for _ in range(N): act()
            gc.collect(); grow.append(cur() - s)
        if not all(x >= 8 * N for x in grow): break
    gc.enable()
    c.ok(not all(x >= 8 * N for x in grow), name.split("(")[0] + ":leak", lambda: "memory grew by %s bytes in 3 x %d calls; %s %s %s; %s" % (grow, N, name, rep.log, show(args), repr(objs)[:300]))
    c.ok([sys.getrefcount(o) for o in objs] == refs, name.split("(")[0] + ":refcount", lambda: "references %s -> %s" % (refs, [sys.getrefcount(o) for o in objs]))
    c.h(name + str(rep.log)); c.text = "%s %s growth %s" % (name, rep.log, grow)

def k_life(c):
    """objects and arrays outlive what they were made from"""
    r = c.r; S = scene(c); S["bad"] = False; S["ct"] = 0
    for d in "YXNME": S[d] = max(1, S[d])
    g = gen(c, "g", S); p = gen(c, "p", S); G = Rep(c, "vary").get(g); P = Rep(c, "vary").get(p); T = gridpp.KDTree(P.get_lats(), P.get_lons())
    o1, o2 = gridpp.Point(S["o"] + 0.2, 5.1, 10, 0.5), gridpp.Point(S["o"] + 0.3, 5.2, 60, 0.25)
    kept = []   # (what, object or array, function giving its state)
    def arrs(n, x): kept.append((n, lambda x=x: [np.array(y[0]) for y in flatten(x)]))
    def obj(n, f): kept.append((n, f))
    for m in ("get_lats", "get_lons", "get_elevs", "get_lafs", "size"):
        arrs("Grid." + m, getattr(G, m)()); arrs("Points." + m, getattr(P, m)())
    for m in ("get_x", "get_y", "get_z", "get_lats", "get_lons"): arrs("KDTree." + m, getattr(T, m)())
    P2 = gridpp.Points(T); obj("Points(KDTree)", lambda: [P2.get_lats(), np.array(P2.get_nearest_neighbour(60, 5))])
    P3 = P.subset([0]); obj("subset", lambda: [P3.get_lats(), P3.get_elevs()]); P4 = G.to_points(); obj("to_points", lambda: [P4.get_lats(), P4.get_lafs()]); P5 = P.get_in_domain(G); obj("get_in_domain", lambda: [P5.get_lats()])
    pt = P.get_point(0); obj("get_point", lambda: [np.array([pt.lat, pt.lon, pt.elev, pt.laf, pt.x, pt.y, pt.z])])
    gp = G.get_point(0, 0); obj("Grid.get_point", lambda: [np.array([gp.lat, gp.lon, gp.elev, gp.laf])])
    B = gridpp.BarnesStructure(100000, 100, 0.5); So = gridpp.SoarStructure(50000); Li = gridpp.LinearStructure(100000)
    M = gridpp.MultipleStructure(B, So, Li); X = gridpp.CrossValidation(B, 1000); K = B.clone(); W = np.full((S["Y"], S["X"]), 50000.0)
    SP = gridpp.BarnesStructure(G, W, W, W * 0 + 0.5, 0.01); MX = gridpp.MultipleStructure(X, M, SP); KX = MX.clone(); XX = gridpp.CrossValidation(M, 0.1).clone()
    for n, s in (("Multiple", M), ("CrossValidation", X), ("clone", K), ("spatial", SP), ("nested", MX), ("nested clone", KX), ("CrossValidation clone", XX)):
        obj(n, lambda s=s: [np.array([s.corr(o1, o2), s.corr_background(o1, o2), s.localization_distance(o1)])])
    v = gridpp.FloatVector([1.5, 2.5, r.random()]); arrs("nearest", gridpp.nearest(P, G, P.get_elevs())); V2 = gridpp.FloatVector2([[1, 2], [3, 4]]); obj("FloatVector", lambda: [np.array(list(v))]); obj("FloatVector2", lambda: [np.array([list(x) for x in V2])])
    gridpp.test_vec_input(v); gridpp.test_vec2_input(V2); gridpp.Points(v, v, v, v)
    pt.lat = 61.5; c.ok(pt.lat == 61.5, "Point:assign", "lat")
    before = [(n, f()) for n, f in kept]
    q = r.randint(0, 2)
    if q >= 1: del G, P, T
    if q == 2: del B, So, Li, W
    gc.collect(); junk = [gridpp.Points(np.arange(5) * 0.1, np.arange(5) * 0.1).get_lats() + 1 for _ in range(5)] + [gridpp.BarnesStructure(7, 7, 7) for _ in range(5)]
    for n, b in before:
        now = dict((a, f) for a, f in kept)[n]()
        c.ok(all(same(np.asarray(x, float), np.asarray(y, float)) for x, y in zip(b, now)), "lifetime:" + n, lambda: "%s was %s, is now %s" % (n, b, now))
        for x in b: c.h(np.asarray(x).tobytes())
    c.text = "%d objects and arrays after deleting their parents" % len(before)

def k_misc(c):
    r = c.r
    for n, v in dict(mean=0, min=10, median=20, max=30, quantile=40, std=50, variance=60, sum=70, count=80, randomchoice=90).items(): c.ok(gridpp.get_statistic(n) == v, "get_statistic", n)
    c.ok(gridpp.get_statistic(r.choice(["x", "", "Mean2", "\u00e5", "mean\0x", "a" * 1000])) == gridpp.Unknown, "get_statistic", "unknown")
    for bad in (None, 3, b"mean", [], "\ud800"):
        try: gridpp.get_statistic(bad)
        except SystemError as e: c.viol("get_statistic:SystemError", str(e))
        except Exception: pass
    try: gridpp.test_not_implemented_exception(); c.viol("not_implemented", "no exception")
    except RuntimeError: c.ok(True, "", "")
    except Exception as e: c.viol("not_implemented", type(e).__name__)
    n = r.randint(1, 4); gridpp.set_omp_threads(n); c.ok(gridpp.get_omp_threads() == n, "omp_threads", str(n)); gridpp.set_omp_threads(1)
    big = np.arange(r.randint(1000, 60000), dtype=r.choice([F32, np.float64, np.int32, ">f8"])) % 251
    if r.random() < 0.5: big = big.reshape(1, -1)[:, ::r.randint(1, 3)].reshape(-1)
    res = gridpp.wind_speed(big, big * 0); c.ok(same(res.astype(float), big.astype(float)), "wind_speed:large", lambda: "%s" % (np.flatnonzero(res != big)[:5],))
    y, x = r.randint(1, 200), r.randint(1, 200); m = (np.arange(y * x).reshape(y, x) % 509).astype(r.choice([F32, np.float64, np.int16]))
    if r.random() < 0.5: m = np.asfortranarray(m)
    res = gridpp.neighbourhood(m, 0, gridpp.Mean); c.ok(same(res.astype(float), m.astype(float)), "neighbourhood:large", "%s %s" % (m.shape, m.dtype))
    z = r.randint(1, 8); t = (np.arange(y * z * x).reshape(y, x, z) % 509).astype(r.choice([F32, np.float64, np.int16]))
    if r.random() < 0.5: t = np.ascontiguousarray(t.transpose(2, 0, 1)).transpose(1, 2, 0)
    res = gridpp.Identity().forward(t); c.ok(same(res.astype(float), t.astype(float)), "Identity:large", "%s %s" % (t.shape, t.dtype))
    c.h((big.size, y, x, z)); c.text = "large arrays %d %dx%dx%d" % (big.size, y, x, z)

KINDS = [("call", k_call, 14), ("hostile", k_hostile, 6), ("leak", k_leak, 2), ("life", k_life, 1), ("misc", k_misc, 1)]
WHEEL = [k for k in KINDS for _ in range(k[2])]
FD = os.open(A["out"], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644) if A.get("out") else 1
seed = int(A.get("seed", 1))
def mix(z): z = (z + 0x9E3779B97F4A7C15) & (2 ** 64 - 1); z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & (2 ** 64 - 1); z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & (2 ** 64 - 1); return z ^ (z >> 31)
for cid in range(int(A.get("start", 0)), int(A.get("end", 10)), int(A.get("stride", 1))):
    c = Case(cid, seed); kn, fn, _ = WHEEL[mix(cid * 31 + 7) % len(WHEEL)]
    line("B\t%d\t%s" % (cid, kn))
    try: fn(c)
    except SystemError as e: c.viol("SystemError", str(e))
    except Viol as e: c.viol("result", str(e))
    except MemoryError as e: c.viol("MemoryError", str(e))
    line("D\t%d\t%s\t%d\t%d\t%016x\t%d\t%s" % (cid, kn, c.checks, c.live, c.hash, c.nv, c.text.replace("\t", " ")[:600] if cid % 97 < 3 else ""))
line("E")
os.close(FD) if FD != 1 else None
