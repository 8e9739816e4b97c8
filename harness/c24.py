"""Monitors of the Python module: values, refusals, models solved, ownership.  Runs under ASan and UBSan."""
import ctypes, gc, math, os, sys
import pymon
import nla3d as nla

mon = pymon.Mon()
VECS = {n: getattr(nla, "Vec%d" % n) for n in range(2, 8)}
AX = [nla.Dof.UX, nla.Dof.UY, nla.Dof.UZ]
DOFS = {"UX": nla.Dof.UX, "UY": nla.Dof.UY, "UZ": nla.Dof.UZ, "ROTX": nla.Dof.ROTX, "ROTY": nla.Dof.ROTY, "ROTZ": nla.Dof.ROTZ,
        "HYDRO_PRESSURE": nla.Dof.HYDRO_PRESSURE, "TEMP": nla.Dof.TEMP}


def vec(vals):
    v = VECS[len(vals)]()
    for i, x in enumerate(vals):
        v[i] = x
    return v


def dvec(vals):
    v = nla.dVec(len(vals))
    for i, x in enumerate(vals):
        v[i] = x
    return v


def items(v):
    return [v[i] for i in range(v.size())]


def bad_indices(r, n):
    return [n, n + 1, n + r.irange(2, 1000), 65535]


# ---- vectors
def vectors(r):
    n = r.irange(2, 8)
    dyn = n == 8
    if dyn:
        n = r.irange(1, 30)
    make = dvec if dyn else vec
    kind = "dVec" if dyn else "Vec%d" % n
    mon.note(kind)
    a, b, s = [r.value() for _ in range(n)], [r.value() for _ in range(n)], r.value()
    x, y = make(a), make(b)
    mon.same("vector.size", x.size(), n)
    mon.same("vector.values", items(x), a, kind)
    mon.same("vector.add", items(x + y), [p + q for p, q in zip(a, b)], kind)
    mon.same("vector.subtract", items(x - y), [p - q for p, q in zip(a, b)], kind)
    mon.same("vector.negate", items(-x), [-p for p in a], kind)
    mon.same("vector.scale", items(x * s), [p * s for p in a], kind)
    mon.same("vector.text", str(x), str(a), kind)
    mon.same("vector.operands", (items(x), items(y)), (a, b), "operands of operators")
    if dyn:
        if s != 0:
            z = x / s
            for i in range(n):
                mon.near("vector.divide", z[i], a[i] / s, 4e-16 * abs(a[i] / s), kind)
        z = nla.dVec(n, s)
        mon.same("vector.fill", items(z), [s] * n, "constructed with a value")
        z.fill(b[0])
        mon.same("vector.fill", items(z), [b[0]] * n, "filled")
        st = r.irange(0, n - 1)
        ln = r.irange(1, n - st)
        w = nla.dVec(x, st, ln)  # a window of x
        mon.same("vector.window", items(w), a[st:st + ln], kind)
        w[ln - 1] = s
        mon.same("vector.window", x[st + ln - 1], s, "value written through a window")
        x[st + ln - 1] = a[st + ln - 1]
        mon.same("vector.window", w[ln - 1], a[st + ln - 1], "value read through a window")
        mon.raises("vector.window.range", IndexError, "index beyond a window", lambda: w[ln])
        del w
        mon.same("vector.values", items(x), a, "after a window is dropped")
        z.reinit(n + 2, s)
        mon.same("vector.reinit", items(z), [s] * (n + 2), kind)
        z.clear()
        mon.same("vector.clear", z.size(), 0)
        mon.ev("windows")
    else:
        scale = sum(abs(p * q) for p, q in zip(a, b))
        mon.near("vector.dot", x * y, sum(p * q for p, q in zip(a, b)), 1e-14 * scale, kind)
        q = sum(p * p for p in a)
        mon.near("vector.qlength", x.qlength(), q, 1e-14 * q, kind)
        mon.near("vector.length", x.length(), math.sqrt(q), 1e-14 * math.sqrt(q), kind)
        c = x.compare(make([p + 1e-7 for p in a]), 1e-5), x.compare(make(a[:-1] + [a[-1] + 1.0]), 1e-5)
        mon.same("vector.compare", c, (True, False), kind)
    x.zero()
    mon.same("vector.zero", items(x), [0.0] * n, kind)
    for i in bad_indices(r, n):
        mon.raises("vector.range", IndexError, "index %d of %s read" % (i, kind), lambda: y[i])
        mon.raises("vector.range", IndexError, "index %d of %s written" % (i, kind), lambda: y.__setitem__(i, 1.0))
    mon.raises("vector.range", (IndexError, OverflowError), "index -1", lambda: y[-1])
    mon.same("vector.values", items(y), b, "after refusals")
    mon.ev("vectors")
    mon.sig(kind)


# ---- matrices
def rnd(r, m, n):
    return [[r.value() for _ in range(n)] for _ in range(m)]


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def det3(a):
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


def mat33(a):
    m = nla.Mat33()
    m.from_list(a)
    return m


def cmp(key, got, want, tol, what=""):
    for i in range(len(want)):
        for j in range(len(want[0])):
            mon.near(key, got[i][j], want[i][j], tol, "%s %d,%d" % (what, i, j))


def matrices(r):
    k = r.irange(0, 2)
    if k == 0:
        mon.note("Mat33")
        a, b, s, v = rnd(r, 3, 3), rnd(r, 3, 3), r.value(), [r.value() for _ in range(3)]
        x, y, w = mat33(a), mat33(b), vec(v)
        mon.same("matrix.values", x.to_list(), a)
        mon.same("matrix.text", str(x), str(a))
        mon.same("matrix.add", (x + y).to_list(), [[p + q for p, q in zip(c, d)] for c, d in zip(a, b)])
        mon.same("matrix.subtract", (x - y).to_list(), [[p - q for p, q in zip(c, d)] for c, d in zip(a, b)])
        mon.same("matrix.negate", (-x).to_list(), [[-p for p in c] for c in a])
        mon.same("matrix.scale", (x * s).to_list(), [[p * s for p in c] for c in a])
        mon.same("matrix.transpose", x.transpose().to_list(), [[a[j][i] for j in range(3)] for i in range(3)])
        top = max(abs(p) for c in a for p in c)
        mon.near("matrix.det", x.det(), det3(a), 1e-14 * (6 * top ** 3 + 1e-300))
        z = x.copy()
        z[0, 1] = s + 1
        mon.same("matrix.copy", x.to_list(), a, "after a change of a copy")
        mon.same("matrix.copy", z[0, 1], s + 1)
        mon.same("matrix.operands", (x.to_list(), y.to_list(), items(w)), (a, b, v), "operands of operators")
        mon.same("matrix.compare", (x.compare(mat33(a)), x.compare(mat33([[a[0][0] + 1.0] + a[0][1:]] + a[1:]))), (True, False))
        # a well conditioned one
        c = [[r.uniform(-1, 1) + (4 if i == j else 0) for j in range(3)] for i in range(3)]
        x = mat33(c)
        cmp("matrix.inverse", mul(x.inv(x.det()).to_list(), c), [[float(i == j) for j in range(3)] for i in range(3)], 1e-13, "inverse times matrix")
        e = [[c[i][j] + c[j][i] for j in range(3)] for i in range(3)]
        ev = sorted(items(mat33(e).eigenvalues()))
        p1, p2, p3 = sum(e[i][i] for i in range(3)), sum(e[i][i] * e[j][j] - e[i][j] ** 2 for i in range(3) for j in range(i)), det3(e)
        mon.near("matrix.eigenvalues", sum(ev), p1, 1e-9 * 30)
        mon.near("matrix.eigenvalues", ev[0] * ev[1] + ev[1] * ev[2] + ev[0] * ev[2], p2, 1e-9 * 300)
        mon.near("matrix.eigenvalues", ev[0] * ev[1] * ev[2], p3, 1e-9 * 1000)
        x.Identity()
        mon.same("matrix.identity", x.to_list(), [[float(i == j) for j in range(3)] for i in range(3)])
        x.zero()
        mon.same("matrix.zero", x.to_list(), [[0.0] * 3] * 3)
        m, n, x, want = 3, 3, y, b
    elif k == 1:
        m, n = r.irange(1, 12), r.irange(1, 12)
        mon.note("dMat %d x %d" % (m, n))
        want = rnd(r, m, n)
        x = nla.dMat.from_list(want)
        mon.same("matrix.values", x.to_list(), want)
        mon.same("matrix.text", str(x), str(want))
        mon.same("matrix.size", (x.dM(), x.dN()), (m, n))
        z = nla.dMat(2, 2)
        mon.same("matrix.zero", z.to_list(), [[0.0] * 2] * 2, "a new matrix")
        z.resize(n, m)
        mon.same("matrix.resize", z.to_list(), [[0.0] * m] * n, "a resized matrix")
        mon.ev("dynamic_matrices")
    else:
        mon.note("MatSym3")
        m = n = 3
        x = nla.MatSym3()
        x.zero()
        want = [[0.0] * 3 for _ in range(3)]
        mon.same("matrix.zero", [[x[i, j] for j in range(3)] for i in range(3)], want)
        for i in range(3):
            for j in range(i, 3):
                want[i][j] = want[j][i] = r.value()
                p, q = (i, j) if r.chance(0.5) else (j, i)
                x[p, q] = want[i][j]
        mon.same("matrix.symmetric", [[x[i, j] for j in range(3)] for i in range(3)], want)
        mon.same("matrix.text", str(x), str(want))
        mon.same("matrix.full", x.toMat().to_list(), want, "full matrix")
        mon.ev("symmetric_matrices")
    for i, j in [(m, 0), (0, n), (m, n), (m + r.irange(1, 90), 0), (0, n + r.irange(1, 90)), (65535, 65535)]:
        mon.raises("matrix.range", IndexError, "component %d,%d read" % (i, j), lambda: x[i, j])
        mon.raises("matrix.range", IndexError, "component %d,%d written" % (i, j), lambda: x.__setitem__((i, j), 1.0))
    mon.same("matrix.values", [[x[i, j] for j in range(n)] for i in range(m)], want, "after refusals")
    mon.ev("matrices")
    mon.sig("m%d %d %d" % (k, m, n))


# ---- in-place operators, aliases and objects inside other objects
def inplace(r):
    k = r.irange(0, 5)
    mon.note("in-place %d" % k)
    if k == 0:
        n = r.irange(2, 7)
        a, b, s = [r.value() for _ in range(n)], [r.value() for _ in range(n)], r.value()
        x = vec(a)
        c = x
        y = vec(b)
        for _ in range(r.irange(1, 4)):
            x += y
            a = [p + q for p, q in zip(a, b)]
        mon.same("inplace.add", items(x), a)
        if r.chance(0.5):
            del x
            gc.collect()
            vec(b)
        mon.same("inplace.alias", items(c), a, "another name of the changed vector")
        c *= s
        mon.same("inplace.scale", items(c), [p * s for p in a])
        mon.same("inplace.operand", items(y), b)
    elif k == 1:
        n = r.irange(1, 30)
        a, b = [r.value() for _ in range(n)], [r.value() for _ in range(n)]
        x, y = dvec(a), dvec(b)
        c = x
        x += y
        a = [p + q for p, q in zip(a, b)]
        mon.same("inplace.add", items(x), a)
        x -= y
        x -= y
        a = [(p - q) - q for p, q in zip(a, b)]
        mon.same("inplace.subtract", items(x), a)
        del x
        gc.collect()
        mon.same("inplace.alias", items(c), a)
        # through a window
        w = nla.dVec(c, 0, (n + 1) // 2)
        w += nla.dVec(y, 0, (n + 1) // 2)
        a = [p + q if i < (n + 1) // 2 else p for i, (p, q) in enumerate(zip(a, b))]
        mon.same("inplace.window", items(c), a)
    elif k == 2:
        a, b = rnd(r, 3, 3), rnd(r, 3, 3)
        x, y = mat33(a), mat33(b)
        c = x
        x += y
        x += y
        a = [[(p + q) + q for p, q in zip(d, e)] for d, e in zip(a, b)]
        del x
        gc.collect()
        mon.same("inplace.add", c.to_list(), a)
    elif k == 3:
        x, y = nla.MatSym3(), nla.MatSym3()
        x.zero()
        y.zero()
        want = [[0.0] * 3 for _ in range(3)]
        for i in range(3):
            for j in range(i, 3):
                p, q = r.value(), r.value()
                x[i, j], y[i, j] = p, q
                want[i][j] = want[j][i] = p + q
        c = x
        x += y
        del x
        gc.collect()
        mon.same("inplace.add", c.toMat().to_list(), want)
    elif k == 4:  # positions of nodes, free and in a storage
        s = nla.FEStorage()
        nodes, want = [], []
        for i in range(r.irange(1, 6)):
            node = nla.Node()
            p = [r.value() for _ in range(3)]
            node.pos[0], node.pos[1], node.pos[2] = p
            nodes.append(node)
            want.append(p)
        for op in range(r.irange(1, 12)):
            i = r.irange(0, len(nodes) - 1)
            b, f = [r.value() for _ in range(3)], r.value()
            o = r.irange(0, 3)
            if o == 0:
                nodes[i].pos += vec(b)
                want[i] = [p + q for p, q in zip(want[i], b)]
            elif o == 1:
                nodes[i].pos *= f
                want[i] = [p * f for p in want[i]]
            elif o == 2:
                nodes[i].pos = vec(b)
                want[i] = b
            else:
                q = nodes[i].pos
                q += vec(b)
                want[i] = [p + t for p, t in zip(want[i], b)]
            if r.chance(0.3):
                gc.collect()
            for n, w in zip(nodes, want):
                mon.same("inplace.node", items(n.pos), w, "node after operation %d" % o)
        for n in nodes:
            s.addNode(n)
        for i, w in enumerate(want):
            mon.same("inplace.node.stored", items(s.getNode(i + 1).pos), w)
            s.getNode(i + 1).pos += vec(w)
            mon.same("inplace.node.stored", items(s.getNode(i + 1).pos), [p + p for p in w])
        mon.ev("node_positions")
    else:  # vectors and numbers inside elements
        el = nla.SurfaceLINETH()
        t = [r.value(), r.value()]
        el.etemp[0], el.etemp[1] = t
        el.htc, el.flux = t[0] + 1, t[1] + 2
        mon.same("element.values", (items(el.etemp), el.htc, el.flux), (t, t[0] + 1, t[1] + 2))
        el.etemp += vec(t)
        mon.same("inplace.element", items(el.etemp), [t[0] + t[0], t[1] + t[1]])
        q = nla.ElementQUADTH()
        v = [r.value() for _ in range(4)]
        q.k, q.rho, q.c, q.volFlux = v
        mon.same("element.values", [q.k, q.rho, q.c, q.volFlux], v)
        b = nla.ElementTRUSS3()
        b.E, b.A = v[0], v[1]
        mon.same("element.values", [b.E, b.A], v[:2])
        e = nla.ElementTETRA0()
        e.E, e.my, e.alpha, e.T = v
        mon.same("element.values", [e.E, e.my, e.alpha, e.T], v)
        for el, n in ((el, 2), (q, 4), (b, 2), (e, 4)):
            mon.same("element.nodes", el.getNNodes(), n)
            nums = [r.irange(1, 4000000000) for _ in range(n)]
            for i in range(n):
                el.setNodeNumber(i, nums[i])
            mon.same("element.node.numbers", [el.getNodeNumber(i) for i in range(n)], nums)
            for i in bad_indices(r, n):
                mon.raises("element.range", IndexError, "node %d of %d read" % (i, n), lambda: el.getNodeNumber(i))
                mon.raises("element.range", IndexError, "node %d of %d written" % (i, n), lambda: el.setNodeNumber(i, 1))
            mon.same("element.node.numbers", [el.getNodeNumber(i) for i in range(n)], nums, "after refusals")
    mon.ev("inplace")
    mon.sig("i%d" % k)


# ---- mesh files
def mesh(r):
    n = r.irange(1, 30)
    nums = r.sample(range(1, r.choice([40, 5000, 900000])), n)
    if r.chance(0.5):
        nums.sort()
    pos = [[r.value() for _ in range(3)] for _ in range(n)]
    rows = lambda fmt, vals: "".join(fmt % v for v in vals)
    neu = r.chance(0.2)
    exp = dict(nodes=nums, pos=[], cells=[], nn=[], attr={k: [] for k in ("MAT", "TYPE", "REAL", "SECT", "CS", "SHAPE")}, fix=[], load=[], comps={})
    L = []
    if neu:
        exp["nodes"] = nums = list(range(1, n + 1))
        L.append("%d" % n)
        for p in pos:
            t = ["%.12e" % v for v in p]
            exp["pos"].append([float(v) for v in t])
            L.append("  " + " ".join(t))
        m = r.irange(0, 20)
        L.append("%d" % m)
        for i in range(m):
            nd, mat = [r.choice(nums) for _ in range(4)], r.irange(1, 9)
            exp["cells"].append(i + 1)
            exp["nn"].append(nd)
            exp["attr"]["MAT"].append(mat)
            L.append(" %d " % mat + " ".join(map(str, nd)))
        exp["attr"] = {"MAT": exp["attr"]["MAT"]} if m else {}
        L.append("0")
    else:
        L += ["/COM,ANSYS RELEASE 17.1", "NBLOCK,6,SOLID,%10d,%10d" % (n, n), "(3i9,6e21.13e3)"]
        for i, p in zip(nums, pos):
            t = []
            for v in p:
                a, b = ("%.13E" % v).split("E")
                t.append("%sE%s%s" % (a, b[0], b[1:].rjust(3, "0")))
            exp["pos"].append([float(v) for v in t])
            L.append(rows("%9d", (i, 0, 0)) + rows("%21s", t))
        L.append("N,R5.3,LOC,       -1,")
        m, c = r.irange(0, 20), 0
        L += ["EBLOCK,19,SOLID,%10d,%10d" % (m, m), "(19i9)"]
        for i in range(m):
            nd, c = [r.choice(nums) for _ in range(r.irange(1, 8))], c + r.irange(1, 9)
            at = [r.irange(1, 9) if k != "TYPE" else r.irange(1, 3) for k in ("MAT", "TYPE", "REAL", "SECT", "CS", "SHAPE")]
            L.append(rows("%9d", at[:5] + [0, 0, at[5], len(nd), 0, c] + nd))
            exp["cells"].append(c)
            exp["nn"].append(nd)
            for k, v in zip(("MAT", "TYPE", "REAL", "SECT", "CS", "SHAPE"), at):
                exp["attr"][k].append(v)
        L.append("       -1")
        if not m:
            exp["attr"] = {}
        for _ in range(r.irange(0, 8)):
            d, v, i = r.choice(list(DOFS)), "%.9g" % r.value(), r.choice(nums)
            L.append("D,%7d,%s,%s,  0.0" % (i, d, v))
            exp["fix"].append((i, DOFS[d], float(v)))
        for _ in range(r.irange(0, 8)):
            d, v, i = r.choice([("HEAT", "TEMP"), ("FX", "UX"), ("FY", "UY"), ("FZ", "UZ")]), "%.9g" % r.value(), r.choice(nums)
            L.append("F,%7d,%s,%s,  0.0" % (i, d[0], v))
            exp["load"].append((i, DOFS[d[1]], float(v)))
    name = "mesh." + ("neu" if neu else "cdb")
    with open(name, "w") as f:
        f.write("\n".join(L) + "\n")
    md = nla.MeshData()
    if not mon.check("mesh.read", nla.readNeuFile(name, md) if neu else nla.readCdbFile(name, md), "file refused"):
        return

    def compare(w):
        mon.same("mesh.nodes", list(md.nodesNumbers), exp["nodes"], w)
        mon.same("mesh.positions", [items(p) for p in md.nodesPos], exp["pos"], w)
        mon.same("mesh.cells", list(md.cellNumbers), exp["cells"], w)
        mon.same("mesh.cell.nodes", [list(c) for c in md.cellNodes], exp["nn"], w)
        mon.same("mesh.attributes", {k: list(md.cellIntData[k]) for k in md.cellIntData.keys() if exp["cells"]}, exp["attr"], w)
        mon.same("mesh.fixes", [(b.node, b.node_dof, b.value) for b in md.fixBcs], exp["fix"], w)
        mon.same("mesh.loads", [(b.node, b.node_dof, b.value) for b in md.loadBcs], exp["load"], w)
        mon.same("mesh.degenerated", list(md.getDegeneratedCells()), [i for i, c in enumerate(exp["nn"]) if len(set(c)) < len(c)], w)
        for k, v in exp["attr"].items():
            for x in (1, 2, r.irange(1, 9)):
                mon.same("mesh.attribute.cells", list(md.getCellsByAttribute(k, x)), [i for i, y in enumerate(v) if y == x], w)
        mon.same("mesh.attribute.cells", list(md.getCellsByAttribute("NONE", 1)), [], w)
    compare("as read")
    mon.raises("mesh.range", IndexError, "node beyond the mesh", lambda: md.nodesPos[n])
    mon.raises("mesh.range", IndexError, "cell beyond the mesh", lambda: md.cellNodes[len(exp["nn"])])
    md.compressNumbers()
    new = {o: i + 1 for i, o in enumerate(exp["nodes"])}
    exp["nodes"] = list(range(1, n + 1))
    exp["nn"] = [[new[x] for x in c] for c in exp["nn"]]
    exp["fix"] = [(new[a], b, c) for a, b, c in exp["fix"]]
    exp["load"] = [(new[a], b, c) for a, b, c in exp["load"]]
    compare("compressed")
    # values written from Python
    i = r.irange(0, n - 1)
    p = [r.value() for _ in range(3)]
    md.nodesPos[i] = vec(p)
    exp["pos"][i] = p
    if exp["nn"]:
        i = r.irange(0, len(exp["nn"]) - 1)
        md.cellNodes[i] = [9, 8, 9]
        exp["nn"][i] = [9, 8, 9]
    compare("changed")
    # node positions are copies
    s = nla.FEStorage()
    for i, j in enumerate(s.createNodes(n)):
        s.getNode(j).pos = md.nodesPos[i]
    md.clear()
    exp.update(nodes=[], cells=[], nn=[], attr={}, fix=[], load=[])
    old, exp["pos"] = exp["pos"], []
    compare("cleared")
    mon.same("mesh.positions.stored", [items(s.getNode(i + 1).pos) for i in range(n)], old)
    mon.ev("mesh_files")
    mon.sig("mesh %d %d %d" % (neu, n, m))


# ---- models
def dense(n):
    return [[0.0] * n for _ in range(n)]


class Model:
    """node positions, elements (list of (dofs, matrix, load vector)), conditions; the equations are kept apart from the library"""

    def __init__(self, r, x, types):
        self.r, self.x, self.types = r, x, types
        self.s = nla.FEStorage()
        self.k, self.f, self.c, self.fix = {}, {}, {}, {}
        self.eqs = []
        # nodes in one go or one after another
        if r.chance(0.5):
            ids = list(self.s.createNodes(len(x)))
            mon.same("model.nodes", ids, list(range(1, len(x) + 1)))
            for i, p in zip(ids, x):
                if r.chance(0.5):
                    self.s.getNode(i).pos = vec(p)
                else:
                    q = self.s.getNode(i).pos
                    q[0], q[1], q[2] = p
        else:
            keep = []
            for p in x:
                n = nla.Node()
                n.pos = vec(p)
                self.s.addNode(n)
                if r.chance(0.5):
                    keep.append(n)
            del n, keep
            gc.collect()
        mon.same("model.positions", [items(self.s.getNode(i + 1).pos) for i in range(len(x))], x)
        mon.same("model.nodes", self.s.nNodes(), len(x))
        self.nel = 0

    def elements(self, etype, cls, get, conn, setup):
        """adds elements of one kind; setup(el, i) sets their data"""
        r = self.r
        if r.chance(0.5):
            ids = list(self.s.createElements(len(conn), etype))
            mon.same("model.elements", ids, list(range(self.nel + 1, self.nel + len(conn) + 1)))
        else:
            ids, hold = [], []
            for _ in conn:
                e = cls()
                ids.append(self.s.addElement(e))
                if r.chance(0.3):
                    hold.append(e)
                for k, v in enumerate(conn[len(ids) - 1]):
                    e.setNodeNumber(k, v + 1)
            mon.same("model.elements", [e.getElNum() for e in hold], [e.getElNum() for e in hold])
            ids = list(range(self.nel + 1, self.nel + len(conn) + 1))
            del hold, e
            gc.collect()
        self.nel += len(conn)
        els = []
        for n, (i, c) in enumerate(zip(ids, conn)):
            e = get(self.s, i)
            for k, v in enumerate(c):
                e.setNodeNumber(k, v + 1)
            setup(e, n)
            els.append(i)
        mon.same("model.elements", self.s.nElements(), self.nel)
        return ids

    def add(self, dst, dofs, ke):
        for a, p in enumerate(dofs):
            for b, q in enumerate(dofs):
                dst[p, q] = dst.get((p, q), 0.0) + ke[a][b]

    def addf(self, dofs, fe):
        for a, p in enumerate(dofs):
            self.f[p] = self.f.get(p, 0.0) + fe[a]

    def u(self, d):
        return self.s.getNodeDofSolution(d[0] + 1, d[1])

    def verify(self, key, sol=None, cv=None):
        """K u = f on the free DoFs (plus multiples of the constraint equations), reactions on the prescribed ones"""
        dofs = [(i, t) for i in range(len(self.x)) for t in self.types]
        u = {d: self.u(d) for d in dofs} if sol is None else sol
        res, mag = {d: -self.f.get(d, 0.0) for d in dofs}, {d: abs(self.f.get(d, 0.0)) for d in dofs}
        for (p, q), v in self.k.items():
            res[p] += v * u[q]
            mag[p] += abs(v * u[q])
        if cv is not None:
            for (p, q), v in self.c.items():
                res[p] += v * cv[q]
                mag[p] += abs(v * cv[q])
        for d, v in self.fix.items():
            mon.near(key + ".prescribed", u[d], v, 1e-12 * abs(v), "prescribed value of node %d" % (d[0] + 1))
        pre = dict(res)
        for b, terms in self.eqs:
            s = sum(c * u[d] for d, c in terms)
            mon.near(key + ".constraint", s, b, 1e-8 * (abs(b) + sum(abs(c * u[d]) for d, c in terms)) + 1e-12 * top(mag), "constraint equation")
            d0, c0 = max((t for t in terms if t[0] not in self.fix), key=lambda t: abs(t[1]))
            lam = res[d0] / c0
            for d, c in terms:
                pre[d] -= lam * c
                mag[d] += abs(lam * c)
            mon.ev("constraints")
        big = top(mag)
        for d in dofs:
            if d in self.fix:
                if sol is None:
                    mon.near(key + ".reaction", self.s.getReaction(d[0] + 1, d[1]), pre[d], 1e-9 * big, "reaction of node %d" % (d[0] + 1))
                    mon.ev("reactions")
            else:
                mon.near(key + ".equation", pre[d], 0.0, 1e-8 * mag[d] + 1e-10 * big, "equation of node %d" % (d[0] + 1))
                mon.ev("equations")


def top(m):
    return max(m.values()) if m else 0.0


def conditions(m, r, solver, fixed, loaded):
    """boundary conditions through the solver, singly or out of a mesh file"""
    lab = {v: k for k, v in DOFS.items()}
    via_file = r.chance(0.4)
    L = []
    for d, v in fixed:
        m.fix[d] = v
        if via_file:
            L.append("D,%d,%s,%r" % (d[0] + 1, lab[d[1]], v))
        elif v == 0.0 and r.chance(0.5):
            solver.addFix(d[0] + 1, d[1])
        else:
            solver.addFix(d[0] + 1, d[1], v)
    for d, v in loaded:
        m.f[d] = m.f.get(d, 0.0) + v
        if via_file:
            L.append("F,%d,%s,%r" % (d[0] + 1, lab[d[1]], v))
        else:
            solver.addLoad(d[0] + 1, d[1], v)
    # constraint equations come from files only
    free = [(i, t) for i in range(len(m.x)) for t in m.types if (i, t) not in m.fix]
    r.shuffle(free)
    md = nla.MeshData()
    if r.chance(0.4) and len(free) > 6:
        for _ in range(r.irange(1, 2)):
            terms = []
            for _ in range(r.irange(2, 3)):
                terms.append((free.pop(), r.sign() * r.uniform(0.5, 2)))
            b = 0.0 if r.chance(0.5) else r.uniform(-1, 1)
            m.eqs.append((b, terms))
            L.append("CE,R5.0,DEFI,%d,%d,%r" % (len(terms), len(m.eqs), b))
            for k in range(0, len(terms), 2):
                L.append("CE,R5.0,NODE," + ",".join("%d,%s,%r" % (d[0] + 1, lab[d[1]], c) for d, c in terms[k:k + 2]))
    if L:
        with open("bc.cdb", "w") as f:
            f.write("\n".join(L) + "\n")
        mon.check("model.file", nla.readCdbFile("bc.cdb", md), "file of conditions refused")
        for b in md.fixBcs:
            solver.addFix(b.node, b.node_dof, b.value)
        for b in md.loadBcs:
            solver.addLoad(b.node, b.node_dof, b.value)
        mon.same("model.file", len(md.mpcs), len(m.eqs), "constraint equations in the file")
        for i, (b, terms) in enumerate(m.eqs):
            mon.same("model.file", md.mpcs[i].b, b)
            m.s.addMpc(md.mpcs[i])
        del md
        gc.collect()


def processors(m, r, solver):
    n = r.irange(0, 2)
    for i in range(n):
        vtk = nla.VtkProcessor(m.s, "out%d" % i)
        if r.chance(0.5):
            vtk.writeAllResults()
        solver.addPostProcessor(vtk)
        if r.chance(0.5):
            vtk = None
        gc.collect()
    mon.same("model.postprocessors", solver.getNumberOfPostProcessors(), n)
    return n


def finish(m, r, *objs):
    """drop the references in any order"""
    objs = list(objs) + [m.s]
    m.s = None
    r.shuffle(objs)
    while objs:
        objs.pop()
        if r.chance(0.5):
            gc.collect()
    gc.collect()
    mon.ev("destroyed")


def files(key, n):
    for i in range(n):
        f = [x for x in os.listdir(".") if x.startswith("out%d" % i) and x.endswith(".vtk")]
        mon.check(key + ".files", f, "result files of a post-processor")
        for x in f:
            os.unlink(x)
            mon.ev("result_files")


def sub(a, b):
    return [p - q for p, q in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(p * q for p, q in zip(a, b))


def truss(r):
    mon.note("truss")
    pts = [[float(i), float(j), float(k)] for i in range(2) for j in range(2) for k in range(3)]
    r.shuffle(pts)
    n = r.irange(5, 9)
    sc = r.logrange(1e-1, 1e1)
    x = [[(v + r.uniform(-.15, .15)) * sc for v in p] for p in pts[:n]]
    m = Model(r, x, AX)
    conn = [(i, j) if r.chance(0.5) else (j, i) for i in range(n) for j in range(i)]
    r.shuffle(conn)
    E, A = [r.uniform(1, 5) for _ in conn], [r.uniform(0.5, 2) for _ in conn]

    def setup(e, i):
        e.E, e.A = E[i], A[i]
    ids = m.elements(nla.ElementType_TRUSS3, nla.ElementTRUSS3, nla.FEStorage.getElementTRUSS3, conn, setup)
    for (i, j), e, a in zip(conn, E, A):
        d = sub(x[j], x[i])
        l = math.sqrt(dot(d, d))
        t = [v / l for v in d]
        t = [-v for v in t] + t
        m.add(m.k, [(i, q) for q in AX] + [(j, q) for q in AX], [[e * a / l * p * q for q in t] for p in t])
    solver = nla.LinearFESolver()
    solver.attachFEStorage(m.s)
    held = [0, 1, 2]
    fixed = [((i, t), 0.0 if r.chance(0.5) else r.uniform(-.1, .1) * sc) for i in held for t in AX]
    loaded = [((i, t), r.uniform(-1, 1)) for i in range(3, n) for t in AX if r.chance(0.5)] or [((4, AX[0]), 1.0)]
    conditions(m, r, solver, fixed, loaded)
    np = processors(m, r, solver)
    solver.solve()
    m.verify("truss")
    for i, (c, e) in enumerate(zip(conn, E)):
        d = sub(x[c[1]], x[c[0]])
        l2 = dot(d, d)
        du = [m.u((c[1], t)) - m.u((c[0], t)) for t in AX]
        mon.near("truss.stress", m.s.getElementTRUSS3(ids[i]).S, e * dot(d, du) / l2, 1e-11 * e * sum(abs(p * q) for p, q in zip(d, du)) / l2 + 1e-14, "stress of element %d" % ids[i])
        mon.ev("element_results")
    other = r.choice([m.s.getElementTETRA0, m.s.getElementQUADTH, m.s.getElementSurfaceLINETH])
    mon.raises("model.kind", IndexError, "a truss asked for as another element", lambda: other(ids[0]))
    files("truss", np)
    mon.ev("trusses")
    mon.sig("truss %d %d %d" % (n, len(m.eqs), np))
    finish(m, r, solver)


G2 = [-1 / math.sqrt(3), 1 / math.sqrt(3)]


def quad(p, k, rc, q):
    """conductivity, capacity and source of a bilinear quadrilateral, 2 x 2 points"""
    K, C, F = dense(4), dense(4), [0.0] * 4
    sx, sy = [-1, 1, 1, -1], [-1, -1, 1, 1]
    for a in G2:
        for b in G2:
            N = [(1 + sx[i] * a) * (1 + sy[i] * b) / 4 for i in range(4)]
            da, db = [sx[i] * (1 + sy[i] * b) / 4 for i in range(4)], [(1 + sx[i] * a) * sy[i] / 4 for i in range(4)]
            J = [[sum(g[i] * p[i][c] for i in range(4)) for c in range(2)] for g in (da, db)]
            det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
            gx = [(J[1][1] * da[i] - J[0][1] * db[i]) / det for i in range(4)]
            gy = [(-J[1][0] * da[i] + J[0][0] * db[i]) / det for i in range(4)]
            for i in range(4):
                F[i] += q * N[i] * det
                for j in range(4):
                    K[i][j] += k * det * (gx[i] * gx[j] + gy[i] * gy[j])
                    C[i][j] += rc * det * N[i] * N[j]
    return K, C, F


def thermal(r, transient=False):
    mon.note("thermal" + (" transient" if transient else ""))
    nx, ny = r.irange(1, 4), r.irange(1, 4)
    T = nla.Dof.TEMP
    sc = r.logrange(0.3, 3)
    x = [[sc * (i + r.uniform(-.2, .2)), sc * (j + r.uniform(-.2, .2)), 0.0] for j in range(ny + 1) for i in range(nx + 1)]
    order = list(range(len(x)))
    r.shuffle(order)  # random numbers of the nodes
    at = lambda i, j: order[j * (nx + 1) + i]
    xs = [None] * len(x)
    for k, p in enumerate(x):
        xs[order[k]] = p
    x = xs
    m = Model(r, x, [T])
    conn = [(at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)) for i in range(nx) for j in range(ny)]
    conn = [c[s:] + c[:s] for c in conn for s in [r.irange(0, 3)]]
    prop = [(r.uniform(0.5, 3), r.uniform(0.5, 2), r.uniform(0.5, 2), 0.0 if r.chance(0.5) else r.uniform(-2, 2)) for _ in conn]

    def setup(e, i):
        e.k, e.rho, e.c, e.volFlux = prop[i]
    kinds = [lambda: m.elements(nla.ElementType_QUADTH, nla.ElementQUADTH, nla.FEStorage.getElementQUADTH, conn, setup)]
    edge = [(at(i, 0), at(i + 1, 0)) for i in range(nx)] + [(at(nx, j), at(nx, j + 1)) for j in range(ny)]
    edge = r.sample(edge, r.irange(0, len(edge)))
    surf = [(0.0 if r.chance(0.3) else r.uniform(0.1, 2), 0.0 if r.chance(0.5) else r.uniform(-2, 2), r.uniform(1, 5), r.uniform(1, 5)) for _ in edge]

    def setup2(e, i):
        e.htc, e.flux = surf[i][:2]
        if r.chance(0.5):
            e.etemp[0], e.etemp[1] = surf[i][2:]
        else:
            e.etemp = vec(surf[i][2:])
    if edge:
        kinds.append(lambda: m.elements(nla.ElementType_SurfaceLINETH, nla.SurfaceLINETH, nla.FEStorage.getElementSurfaceLINETH, edge, setup2))
    first = r.irange(0, len(kinds) - 1)
    a = kinds[first]()
    if len(kinds) > 1:
        kinds[1 - first]()
    for c, (k, rho, cc, q) in zip(conn, prop):
        K, C, F = quad([x[i] for i in c], k, rho * cc, q)
        dofs = [(i, T) for i in c]
        m.add(m.k, dofs, K)
        m.add(m.c, dofs, C)
        m.addf(dofs, F)
    for c, (h, q, t1, t2) in zip(edge, surf):
        d = sub(x[c[1]], x[c[0]])
        l = math.sqrt(dot(d, d))
        dofs = [(i, T) for i in c]
        m.add(m.k, dofs, [[h * l / 3, h * l / 6], [h * l / 6, h * l / 3]])
        m.addf(dofs, [q * l / 2 + h * l * (t1 / 3 + t2 / 6), q * l / 2 + h * l * (t1 / 6 + t2 / 3)])
    fixed = [((at(0, j), T), 0.0 if r.chance(0.2) else r.uniform(-5, 5)) for j in range(ny + 1) if j == 0 or r.chance(0.7)]
    loaded = [((i, T), r.uniform(-1, 1)) for i in range(len(x)) if (i, T) not in dict(fixed) and r.chance(0.3)]
    solver = nla.LinearTransientFESolver() if transient else nla.LinearFESolver()
    solver.attachFEStorage(m.s)
    if not transient:
        conditions(m, r, solver, fixed, loaded)
        np = processors(m, r, solver)
        solver.solve()
        m.verify("thermal")
        if r.chance(0.3) and not m.eqs:  # again with another load
            i = r.choice([d for d in range(len(x)) if (d, T) not in m.fix])
            solver.addLoad(i + 1, T, 0.5)
            m.f[i, T] = m.f.get((i, T), 0.0) + 0.5
            solver.solve()
            m.verify("thermal.again")
            mon.ev("solved_again")
    else:
        for d, v in fixed:
            m.fix[d] = v
            solver.addFix(d[0] + 1, T, v)
        for d, v in loaded:
            m.f[d] = m.f.get(d, 0.0) + v
            solver.addLoad(d[0] + 1, T, v)
        solver.numberOfTimesteps = r.irange(1, 6)
        solver.time0 = r.uniform(0, 1)
        solver.time1 = solver.time0 + r.uniform(0.1, 2)
        solver.initValue = r.uniform(-3, 3)
        solver.alpha, solver.delta = r.choice([(0.25, 0.5), (r.uniform(0.3, 0.6), r.uniform(0.5, 0.9))])
        np = processors(m, r, solver)
        al, de, n, dt = solver.alpha, solver.delta, solver.numberOfTimesteps, (solver.time1 - solver.time0) / solver.numberOfTimesteps
        init = solver.initValue
        solver.solve()
        u, v, w = newmark(m, T, init, al, de, n, dt)
        big = max(1.0, max(abs(q) for q in u.values()))
        for d in u:
            mon.near("transient.solution", m.u(d), u[d], 1e-8 * big, "value of node %d" % (d[0] + 1))
            mon.ev("equations")
        mon.same("transient.values", (solver.alpha, solver.delta, solver.numberOfTimesteps), (al, de, n))
        mon.ev("transient")
    el = m.s.getElement(a[0])
    mon.same("model.element.nodes", el.getNNodes(), 4 if first == 0 else 2)
    mon.raises("model.kind", IndexError, "an element asked for as another kind", lambda: (m.s.getElementSurfaceLINETH if first == 0 else m.s.getElementQUADTH)(a[0]))
    mon.raises("model.kind", IndexError, "an element asked for as another kind", lambda: m.s.getElementTRUSS3(a[0]))
    files("thermal", np)
    mon.ev("thermal")
    mon.sig("thermal %d %d %d %d %d" % (nx, ny, len(edge), len(m.eqs), transient))
    del el
    finish(m, r, solver)


def solve(A, b):
    n = len(b)
    M = [row[:] + [v] for row, v in zip(A, b)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(M[k][i]))
        M[i], M[p] = M[p], M[i]
        for k in range(i + 1, n):
            f = M[k][i] / M[i][i]
            if f:
                for j in range(i, n + 1):
                    M[k][j] -= f * M[i][j]
    x = [0.0] * n
    for i in reversed(range(n)):
        x[i] = (M[i][n] - sum(M[i][j] * x[j] for j in range(i + 1, n))) / M[i][i]
    return x


def newmark(m, T, init, al, de, n, dt):
    free = [(i, T) for i in range(len(m.x)) if (i, T) not in m.fix]
    dofs = free + list(m.fix)
    u = {d: m.fix.get(d, init) for d in dofs}
    v, w = {d: 0.0 for d in dofs}, {d: 0.0 for d in dofs}
    a0, a1, a2, a3, a4, a5, a6, a7 = 1 / (al * dt * dt), de / (al * dt), 1 / (al * dt), 1 / (2 * al) - 1, de / al - 1, dt / 2 * (de / al - 2), dt * (1 - de), de * dt
    A = [[a1 * m.c.get((p, q), 0.0) + m.k.get((p, q), 0.0) for q in free] for p in free]
    for _ in range(n):
        b = [m.f.get(p, 0.0) + sum(m.c.get((p, q), 0.0) * (a1 * u[q] + a4 * v[q] + a5 * w[q]) for q in free) - sum(m.k.get((p, q), 0.0) * u[q] for q in m.fix) for p in free]
        x = dict(zip(free, solve(A, b)))
        for d in m.fix:
            x[d] = m.fix[d]
        w2 = {d: a0 * (x[d] - u[d]) - a2 * v[d] - a3 * w[d] for d in dofs}
        v = {d: v[d] + a6 * w[d] + a7 * w2[d] for d in dofs}
        u, w = x, w2
    return u, v, w


def tetra(r):
    mon.note("tetrahedra")
    sc = r.logrange(0.3, 3)
    x = [[sc * (((i >> k) & 1) + r.uniform(-.1, .1)) for k in range(3)] for i in range(8)] + [[sc * (0.5 + r.uniform(-.1, .1)) for _ in range(3)]]
    conn = []
    for q in ((0, 1, 3, 2), (4, 5, 7, 6), (0, 1, 5, 4), (2, 3, 7, 6), (0, 2, 6, 4), (1, 3, 7, 5)):
        for t in ((q[0], q[1], q[2], 8), (q[0], q[2], q[3], 8)):
            e = [sub(x[i], x[t[0]]) for i in t[1:]]
            conn.append(t if det3(e) > 0 else (t[1], t[0], t[2], t[3]))
    m = Model(r, x, AX)
    prop = [(r.uniform(1, 5), r.uniform(0, 0.4), 0.0 if r.chance(0.5) else r.uniform(0, 0.01), r.uniform(-10, 10)) for _ in conn]

    def setup(e, i):
        e.E, e.my, e.alpha, e.T = prop[i]
    ids = m.elements(nla.ElementType_TETRA0, nla.ElementTETRA0, nla.FEStorage.getElementTETRA0, conn, setup)
    Bs = []
    for c, (E, nu, al, T) in zip(conn, prop):
        e = [sub(x[i], x[c[0]]) for i in c[1:]]
        V = det3(e) / 6
        g = [[v / (6 * V) for v in w] for w in (cross(e[1], e[2]), cross(e[2], e[0]), cross(e[0], e[1]))]
        g = [[-(g[0][k] + g[1][k] + g[2][k]) for k in range(3)]] + g
        # xx yy zz xy yz xz
        B = [[0.0] * 12 for _ in range(6)]
        for a in range(4):
            X, Y, Z = g[a]
            for row, vals in enumerate(((X, 0, 0), (0, Y, 0), (0, 0, Z), (Y, X, 0), (0, Z, Y), (Z, 0, X))):
                B[row][3 * a:3 * a + 3] = vals
        lam, mu = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (2 * (1 + nu))
        D = [[(lam if i < 3 and j < 3 else 0.0) + ((2 * mu if i < 3 else mu) if i == j else 0.0) for j in range(6)] for i in range(6)]
        e0 = [al * T] * 3 + [0.0] * 3
        DB = mul(D, B)
        dofs = [(i, t) for i in c for t in AX]
        m.add(m.k, dofs, [[V * sum(B[k][i] * DB[k][j] for k in range(6)) for j in range(12)] for i in range(12)])
        s0 = [dot(row, e0) for row in D]
        m.addf(dofs, [V * sum(B[k][i] * s0[k] for k in range(6)) for i in range(12)])
        Bs.append((dofs, B, D, e0, V))
    solver = nla.LinearFESolver()
    solver.attachFEStorage(m.s)
    held = r.sample(range(8), 4)
    fixed = [((i, t), 0.0 if r.chance(0.5) else r.uniform(-.1, .1) * sc) for i in held for t in AX]
    loaded = [((i, t), r.uniform(-1, 1)) for i in range(9) if i not in held for t in AX if r.chance(0.3)]
    conditions(m, r, solver, fixed, loaded)
    np = processors(m, r, solver)
    solver.solve()
    m.verify("tetra")
    for i, (dofs, B, D, e0, V) in zip(ids, Bs):
        u = [m.u(d) for d in dofs]
        e = [dot(row, u) for row in B]
        s = [dot(row, sub(e, e0)) for row in D]
        el = m.s.getElementTETRA0(i)
        be = max(sum(abs(p * q) for p, q in zip(row, u)) for row in B) + abs(e0[0])
        bs = be * max(sum(abs(p) for p in row) for row in D)
        for k in range(6):
            mon.near("tetra.strain", el.strains[k], e[k], 1e-11 * be, "strain")
            mon.near("tetra.stress", el.stress[k], s[k], 1e-11 * bs, "stress")
        mon.near("tetra.volume", el.vol, V, 1e-12 * abs(V), "volume")
        mon.ev("element_results")
    mon.raises("model.kind", IndexError, "a tetrahedron asked for as another kind", lambda: m.s.getElementTRUSS3(ids[-1]))
    files("tetra", np)
    mon.ev("tetrahedra")
    mon.sig("tetra %d %d" % (len(m.eqs), np))
    finish(m, r, solver)


# ---- histories of a storage and its objects
def heap():
    return LIB.__sanitizer_get_current_allocated_bytes()


LIB = ctypes.CDLL(None)
LIB.__sanitizer_get_current_allocated_bytes.restype = ctypes.c_size_t


def once(r, plan):
    s = nla.FEStorage()
    solver = nla.LinearFESolver()
    solver.attachFEStorage(s)
    for op in plan:
        if op == "node":
            n = nla.Node()
            n.pos = vec([1.0, 2.0, 3.0])
            s.addNode(n)
        elif op == "nodes":
            s.createNodes(20)
        elif op == "element":
            for cls in (nla.ElementTRUSS3, nla.ElementTETRA0, nla.ElementQUADTH, nla.SurfaceLINETH):
                s.addElement(cls())
        elif op == "elements":
            s.createElements(20, nla.ElementType_TETRA0)
        elif op == "loose":
            nla.Node(), nla.ElementTETRA0(), nla.SurfaceLINETH(), nla.VtkProcessor(s, "x"), nla.MeshData(), nla.dVec(50), nla.dMat(5, 5)
        elif op == "values":
            v = vec([1.0, 2.0, 3.0])
            v += v
            v = v + v
            d = dvec([1.0, 2.0])
            d += d
            d = d * 2.0
            m = mat33([[1, 2, 3], [4, 5, 6], [7, 8, 10]])
            m += m
            m = m * m.transpose().det() if False else m.transpose().copy()
        elif op == "processor":
            p = nla.VtkProcessor(s, "x")
            solver.addPostProcessor(p)
        elif op == "refused":
            for f in (lambda: vec([1.0, 2.0])[2], lambda: nla.ElementTRUSS3().getNodeNumber(2)):
                try:
                    f()
                except IndexError:
                    pass
        elif op == "cleared":
            s.deleteMesh()
            mon.same("history.cleared", (s.nNodes(), s.nElements()), (0, 0))
        elif op == "solved":  # an analysis of its own
            t, f = nla.FEStorage(), nla.LinearFESolver()
            f.attachFEStorage(t)
            t.createNodes(4)
            for i, p in enumerate(([0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0])):
                t.getNode(i + 1).pos = vec(p)
            for e, k in zip(t.createElements(3, nla.ElementType_TRUSS3), (2, 3, 4)):
                e = t.getElementTRUSS3(e)
                e.E, e.A = 1.0, 1.0
                e.setNodeNumber(0, 1)
                e.setNodeNumber(1, k)
            for i in (2, 3, 4):
                for a in AX:
                    f.addFix(i, a)
            f.addLoad(1, AX[0], 1.0)
            f.solve()
            mon.near("history.solved", t.getNodeDofSolution(1, AX[0]), 1.0, 1e-12)
        elif op == "removed":
            solver.deletePostProcessors()
            mon.same("history.removed", solver.getNumberOfPostProcessors(), 0)


def history(r):
    ops = ["node", "nodes", "element", "elements", "loose", "values", "processor", "refused", "cleared", "removed", "solved"]
    plan = [r.choice(ops) for _ in range(r.irange(1, 8))]
    mon.note("history " + " ".join(plan))
    for _ in range(2):
        once(r, plan)
    gc.collect()
    a = heap()
    for _ in range(8):
        once(r, plan)
    gc.collect()
    grown = heap() - a
    # something kept on every round; eight rounds of the smallest object are more than this
    mon.check("history.memory", grown < 8 * 16, "%d bytes are still in use after 8 rounds" % grown)
    mon.maxima["bytes_kept"] = max(mon.maxima.get("bytes_kept", 0), grown)
    mon.ev("histories")
    mon.sig("h" + " ".join(plan))


# ---- mixed kinds of elements and DoFs in one storage
def mixed(r):
    s = nla.FEStorage()
    kinds = [(nla.ElementType_TRUSS3, nla.ElementTRUSS3, s.getElementTRUSS3, 2), (nla.ElementType_TETRA0, nla.ElementTETRA0, s.getElementTETRA0, 4),
             (nla.ElementType_QUADTH, nla.ElementQUADTH, s.getElementQUADTH, 4), (nla.ElementType_SurfaceLINETH, nla.SurfaceLINETH, s.getElementSurfaceLINETH, 2)]
    s.createNodes(r.irange(4, 12))
    nn, want = s.nNodes(), []
    for i in range(nn):  # any nodes in ascending order make a convex quadrilateral
        s.getNode(i + 1).pos = vec([math.cos(6.2 * i / nn), math.sin(6.2 * i / nn), 0.0])
    for _ in range(r.irange(1, 8)):
        k = r.irange(0, 3)
        c = r.irange(1, 3)
        if r.chance(0.5):
            ids = list(s.createElements(c, kinds[k][0]))
            mon.same("mixed.numbers", ids, list(range(len(want) + 1, len(want) + c + 1)))
        else:
            for _ in range(c):
                e = kinds[k][1]()
                s.addElement(e)
                mon.same("mixed.numbers", e.getElNum(), s.nElements())
                if r.chance(0.5):
                    del e
        for i in range(len(want), len(want) + c):
            nums = sorted(r.sample(range(1, nn + 1), kinds[k][3]))
            e = s.getElement(i + 1)
            for a, b in enumerate(nums):
                e.setNodeNumber(a, b)
            want.append((k, nums))
    mon.same("mixed.count", s.nElements(), len(want))
    for i, (k, nums) in enumerate(want):
        mon.same("mixed.nodes", [s.getElement(i + 1).getNodeNumber(a) for a in range(s.getElement(i + 1).getNNodes())], nums)
        for j, q in enumerate(kinds):
            if j == k:
                mon.same("mixed.kind", [q[2](i + 1).getNodeNumber(a) for a in range(q[3])], nums)
                mon.same("mixed.type", q[2](i + 1).getType(), q[0])
            else:
                mon.raises("mixed.kind", IndexError, "element asked for as another kind", lambda: q[2](i + 1))
    s.initDofs()
    dofs = [AX, AX, [nla.Dof.TEMP], [nla.Dof.TEMP]]
    used = {(n, d) for k, nums in want for n in nums for d in dofs[k]}
    got = {(n, d) for n in range(1, nn + 1) for d in AX + [nla.Dof.TEMP] if s.isNodeDofUsed(n, d)}
    mon.same("mixed.dofs", sorted(got), sorted(used))
    fix = {d for d in used if r.chance(0.3)}
    if len(fix) < len(used):
        for n, d in fix:
            s.setConstrainedNodeDof(n, d)
        s.assignEquationNumbers()
        mon.same("mixed.counts", (s.nDofs(), s.nConstrainedDofs(), s.nUnknownDofs()), (len(used), len(fix), len(used) - len(fix)))
        num = {d: s.getNodeDofEqNumber(*d) for d in used}
        mon.same("mixed.equations", sorted(num.values()), list(range(1, len(used) + 1)))
        for d in used:
            mon.same("mixed.equations", num[d] <= len(fix), d in fix, "prescribed ones come first")
            mon.same("mixed.equations", (s.getNodeDof(*d).eqNumber, s.getNodeDof(*d).isConstrained, s.getNodeDof(*d).type), (num[d], d in fix, d[1]))
    mon.same("mixed.labels", [nla.Dof.dofType2label(DOFS[k]) for k in DOFS], list(DOFS))
    mon.same("mixed.labels", [nla.Dof.label2dofType(k) for k in DOFS], list(DOFS.values()))
    mon.ev("mixed")
    mon.sig("mixed " + "".join(str(k) for k, _ in want))


def settings(r):
    s = nla.NonlinearFESolver()
    v = r.irange(1, 60000), r.irange(1, 60000), r.logrange(1e-9, 1)
    s.numberOfIterations, s.numberOfLoadsteps, s.convergenceCriteria = v
    mon.same("settings.values", (s.numberOfIterations, s.numberOfLoadsteps, s.convergenceCriteria), v)
    t = s.timeControl
    a, n = r.uniform(-5, 5), r.irange(1, 20)
    b = a + r.uniform(0.1, 10)
    t.setEndTime(max(b, t.getStartTime() + 1.0))
    t.setStartTime(a)
    t.setEndTime(b)
    mon.same("settings.times", (t.getStartTime(), t.getEndTime()), (a, b))
    for i in range(n):
        mon.check("settings.steps", t.nextStep((b - a) / n), "step %d of %d refused" % (i + 1, n))
        e = r.irange(1, 3)
        for _ in range(e):
            t.nextEquilibriumStep()
        mon.same("settings.steps", (t.getCurrentStep(), t.getCurrentEquilibriumStep(), t.getNumberOfConvergedSteps()), (i + 1, e, i))
        mon.near("settings.time", s.timeControl.getCurrentTime(), a + (b - a) * (i + 1) / n, 1e-6 * (abs(a) + abs(b)))
        mon.near("settings.time", t.getCurrentNormalizedTime(), (i + 1) / n, 1e-6)
    del s
    l = nla.LinearTransientFESolver()
    w = [r.value() for _ in range(5)]
    l.time0, l.time1, l.initValue, l.alpha, l.delta = w
    l.numberOfTimesteps = v[0]
    mon.same("settings.values", ([l.time0, l.time1, l.initValue, l.alpha, l.delta], l.numberOfTimesteps), (w, v[0]))
    mon.ev("settings")
    mon.sig("settings %d" % n)


KINDS = [vectors, matrices, inplace, mesh, truss, thermal, tetra, history, mixed, inplace, lambda r: thermal(r, True), settings, mesh, vectors]


def run(r, c):
    KINDS[c % len(KINDS)](r)


pymon.main(mon, 4200, 60000, run)
