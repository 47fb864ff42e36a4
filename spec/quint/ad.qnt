// -*- mode: Bluespec; -*-
/// Meaning of recordings, tapes, sweeps, abs-normal forms and generalised
/// Jacobians.  Everything is defined over an abstract recording `Recd`:
/// independents, dependents, operations in execution order, and one value per id.
module ad {
  import fx.* from "./fx"

  type Op = { code: str, vid: int, a: int, b: int }
  type Recd = { indeps: List[int], deps: List[int], ops: List[Op], vals: List[int] }

  pure val emptyRec: Recd = { indeps: [], deps: [], ops: [], vals: [] }

  pure def zeros(n: int): List[int] = range(0, n).foldl([], (l, i) => l.append(0))
  pure def unit(n: int, j: int): List[int] = range(0, n).foldl([], (l, i) => l.append(if (i == j) ONE else 0))
  pure def pick(l: List[int], ids: List[int]): List[int] = ids.foldl([], (r, i) => r.append(l[i]))
  pure def vadd(a: List[int], b: List[int]): List[int] = range(0, a.length()).foldl([], (l, i) => l.append(a[i] + b[i]))
  pure def vsub(a: List[int], b: List[int]): List[int] = range(0, a.length()).foldl([], (l, i) => l.append(a[i] - b[i]))
  pure def dot(a: List[int], b: List[int]): int = range(0, a.length()).foldl(0, (s, i) => s + fmul(a[i], b[i]))
  pure def matVec(m: List[List[int]], x: List[int]): List[int] = m.foldl([], (l, r) => l.append(dot(r, x)))
  pure def vabs(a: List[int]): List[int] = a.foldl([], (l, x) => l.append(babs(x)))
  pure def col(m: List[List[int]], j: int): List[int] = m.foldl([], (l, r) => l.append(r[j]))
  /// the matrix with the given columns
  pure def fromCols(cols: List[List[int]], rows: int): List[List[int]] =
    range(0, rows).foldl([], (l, i) => l.append(col(cols, i)))
  pure def matMul(a: List[List[int]], b: List[List[int]], inner: int, cols: int): List[List[int]] =
    a.foldl([], (l, r) => l.append(range(0, cols).foldl([], (q, j) => q.append(
      range(0, inner).foldl(0, (s, k) => s + fmul(r[k], b[k][j]))))))
  pure def maxAbs(l: List[int]): int = l.foldl(0, (m, x) => bmax(m, babs(x)))

  // ------------------------------------------------------------------
  // Elementary functions: value, first and second derivative, and domain
  // ------------------------------------------------------------------
  pure def isUnary(c: str): bool =
    Set("Sin", "Cos", "Tan", "Abs", "Exp", "Ln", "Asin", "Acos", "Atan").contains(c)

  pure def unaryVal(c: str, x: int): int =
    if (c == "Sin") fsin(x) else if (c == "Cos") fcos(x) else if (c == "Tan") ftan(x)
    else if (c == "Abs") babs(x) else if (c == "Exp") fexp(x) else if (c == "Ln") fln(x)
    else if (c == "Asin") fasin(x) else if (c == "Acos") facos(x) else fatan(x)

  /// first derivative (for Abs: the slope on the side x lies on)
  pure def unaryD(c: str, x: int): int =
    if (c == "Sin") fcos(x)
    else if (c == "Cos") -fsin(x)
    else if (c == "Tan") { val t = ftan(x) ONE + fmul(t, t) }
    else if (c == "Abs") bsgn(x) * ONE
    else if (c == "Exp") fexp(x)
    else if (c == "Ln") fdiv(ONE, x)
    else if (c == "Asin") fdiv(ONE, fsqrt(ONE - fmul(x, x)))
    else if (c == "Acos") -fdiv(ONE, fsqrt(ONE - fmul(x, x)))
    else fdiv(ONE, ONE + fmul(x, x))

  pure def unaryDD(c: str, x: int): int =
    if (c == "Sin") -fsin(x)
    else if (c == "Cos") -fcos(x)
    else if (c == "Tan") { val t = ftan(x) 2 * fmul(t, ONE + fmul(t, t)) }
    else if (c == "Abs") 0
    else if (c == "Exp") fexp(x)
    else if (c == "Ln") -fdiv(ONE, fmul(x, x))
    else if (c == "Asin") { val w = ONE - fmul(x, x) fdiv(x, fmul(w, fsqrt(w))) }
    else if (c == "Acos") { val w = ONE - fmul(x, x) fdiv(-x, fmul(w, fsqrt(w))) }
    else { val w = ONE + fmul(x, x) fdiv(-2 * x, fmul(w, w)) }

  /// where the specification compares (a margin inside the mathematical domain)
  pure def unaryDom(c: str, x: int): bool =
    if (c == "Tan") babs(x) <= fint(64) and babs(fcos(x)) >= frat(1, 16)
    else if (c == "Sin" or c == "Cos") babs(x) <= fint(64)
    else if (c == "Exp") x <= fint(7) and x >= -fint(24)
    else if (c == "Ln") x >= frat(1, 4096)
    else if (c == "Asin" or c == "Acos") babs(x) <= frat(31, 32)
    else true

  pure def binVal(c: str, x: int, y: int): int =
    if (c == "Add") x + y else if (c == "Sub") x - y
    else if (c == "Mul") fmul(x, y) else if (c == "Div") fdiv(x, y)
    else fpow(x, y)

  /// partial derivative by the first / second operand
  pure def binD1(c: str, x: int, y: int): int =
    if (c == "Add" or c == "Sub") ONE
    else if (c == "Mul") y
    else if (c == "Div") fdiv(ONE, y)
    else if (y == 0) 0
    else fmul(y, fpow(x, y - ONE))
  pure def binD2(c: str, x: int, y: int): int =
    if (c == "Add") ONE else if (c == "Sub") -ONE
    else if (c == "Mul") x
    else if (c == "Div") -fdiv(x, fmul(y, y))
    else fmul(fln(x), fpow(x, y))

  /// ycst: the second operand is a constant (its partial derivative is never needed)
  pure def binDom(c: str, x: int, y: int, ycst: bool): bool =
    if (c == "Div") babs(y) >= frat(1, 256)
    else if (c == "Powf")
      babs(y) <= fint(8) and babs(x) <= fint(512) and
      if (x >= frat(1, 256)) babs(fmul(y, fln(x))) <= fint(7)
      else ycst and isInt(y) and (if (x == 0) y >= 0 else babs(x) >= frat(1, 256)) and
           (x == 0 or babs(fmul(y, fln(babs(x)))) <= fint(7))
    else true

  pure val VMAX: int = fint(2^12)
  pure val DMAX: int = fint(2^20)

  // ------------------------------------------------------------------
  // Recordings
  // ------------------------------------------------------------------
  pure def opVal(o: Op, v: List[int]): int =
    if (o.b < 0) unaryVal(o.code, v[o.a]) else binVal(o.code, v[o.a], v[o.b])

  pure def isConst(r: Recd, id: int): bool = r.ops.select(o => o.vid == id and o.code == "Const").length() > 0

  pure def opDom(r: Recd, o: Op, v: List[int]): bool =
    o.code == "Const" or
    (if (o.b < 0) unaryDom(o.code, v[o.a])
     else binDom(o.code, v[o.a], v[o.b], o.code == "Powf" and isConst(r, o.b)))

  /// the values after re-evaluation at xs, and whether every operation stayed in its domain
  pure def replay(r: Recd, vals: List[int], xs: List[int]): { ok: bool, vals: List[int] } = {
    val start = range(0, xs.length()).foldl(vals, (v, k) => v.replaceAt(r.indeps[k], xs[k]))
    r.ops.foldl({ ok: true, vals: start }, (s, o) =>
      if (o.code == "Const" or not(s.ok)) s
      else if (not(opDom(r, o, s.vals))) { ok: false, vals: s.vals }
      else
        val w = opVal(o, s.vals)
        if (babs(w) > VMAX) { ok: false, vals: s.vals } else { ok: true, vals: s.vals.replaceAt(o.vid, w) })
  }

  /// forward sweep: increments of the piecewise linearisation at `vals` along dx
  pure def fsweep(r: Recd, vals: List[int], dx: List[int]): List[int] = {
    val start = range(0, dx.length()).foldl(zeros(vals.length()), (v, k) => v.replaceAt(r.indeps[k], dx[k]))
    r.ops.foldl(start, (dv, o) =>
      if (o.code == "Const") dv.replaceAt(o.vid, 0)
      else if (o.code == "Abs") dv.replaceAt(o.vid, babs(vals[o.a] + dv[o.a]) - babs(vals[o.a]))
      else if (o.b < 0) dv.replaceAt(o.vid, fmul(unaryD(o.code, vals[o.a]), dv[o.a]))
      else
        val t1 = if (dv[o.a] == 0) 0 else fmul(binD1(o.code, vals[o.a], vals[o.b]), dv[o.a])
        val t2 = if (dv[o.b] == 0) 0 else fmul(binD2(o.code, vals[o.a], vals[o.b]), dv[o.b])
        dv.replaceAt(o.vid, t1 + t2))
  }
  pure def forward(r: Recd, vals: List[int], dx: List[int]): List[int] = pick(fsweep(r, vals, dx), r.deps)

  /// adjoint sweep: the adjoint of every id for the weights w on the dependents
  pure def rsweep(r: Recd, vals: List[int], w: List[int]): List[int] = {
    val start = range(0, w.length()).foldl(zeros(vals.length()), (v, k) => v.replaceAt(r.deps[k], v[r.deps[k]] + w[k]))
    val n = r.ops.length()
    range(0, n).foldl(start, (bar, k) =>
      val o = r.ops[n - 1 - k]
      if (o.code == "Const" or bar[o.vid] == 0) bar
      else if (o.b < 0) bar.replaceAt(o.a, bar[o.a] + fmul(bar[o.vid], unaryD(o.code, vals[o.a])))
      else
        val p1 = fmul(bar[o.vid], binD1(o.code, vals[o.a], vals[o.b]))
        val bar1 = bar.replaceAt(o.a, bar[o.a] + p1)
        if (isConst(r, o.b)) bar1
        else bar1.replaceAt(o.b, bar1[o.b] + fmul(bar[o.vid], binD2(o.code, vals[o.a], vals[o.b]))))
  }
  pure def reverse(r: Recd, vals: List[int], w: List[int]): List[int] = pick(rsweep(r, vals, w), r.indeps)

  pure def absOps(r: Recd): List[Op] = r.ops.select(o => o.code == "Abs")
  pure def numAbs(r: Recd): int = absOps(r).length()
  pure def outputs(r: Recd, vals: List[int]): List[int] = pick(vals, r.deps)

  /// Jacobian (m rows, n columns) of a recording without absolute values
  pure def jacobian(r: Recd, vals: List[int]): List[List[int]] = {
    val n = r.indeps.length()
    fromCols(range(0, n).foldl([], (l, j) => l.append(forward(r, vals, unit(n, j)))), r.deps.length())
  }

  // ------------------------------------------------------------------
  // Abs-normal form: absolute values become extra independents
  // ------------------------------------------------------------------
  /// sweep with seeds dx on the independents and dw on the absolute values;
  /// result: increments of the arguments of the absolute values, then of the dependents
  pure def anfSweep(r: Recd, vals: List[int], dx: List[int], dw: List[int]): { z: List[int], y: List[int] } = {
    val start = range(0, dx.length()).foldl(zeros(vals.length()), (v, k) => v.replaceAt(r.indeps[k], dx[k]))
    val s = r.ops.foldl({ dv: start, k: 0, z: [] }, (s, o) =>
      if (o.code == "Const") s
      else if (o.code == "Abs")
        { dv: s.dv.replaceAt(o.vid, dw[s.k]), k: s.k + 1, z: s.z.append(s.dv[o.a]) }
      else if (o.b < 0) { dv: s.dv.replaceAt(o.vid, fmul(unaryD(o.code, vals[o.a]), s.dv[o.a])), k: s.k, z: s.z }
      else
        val t1 = if (s.dv[o.a] == 0) 0 else fmul(binD1(o.code, vals[o.a], vals[o.b]), s.dv[o.a])
        val t2 = if (s.dv[o.b] == 0) 0 else fmul(binD2(o.code, vals[o.a], vals[o.b]), s.dv[o.b])
        { dv: s.dv.replaceAt(o.vid, t1 + t2), k: s.k, z: s.z })
    { z: s.z, y: pick(s.dv, r.deps) }
  }

  type Anf = { z: List[int], a: List[int], b: List[int],
               zmat: List[List[int]], lmat: List[List[int]], jmat: List[List[int]], ymat: List[List[int]] }

  pure def absNormal(r: Recd, vals: List[int]): Anf = {
    val n = r.indeps.length()
    val s = numAbs(r)
    val m = r.deps.length()
    val xc = range(0, n).foldl([], (l, j) => l.append(anfSweep(r, vals, unit(n, j), zeros(s))))
    val wc = range(0, s).foldl([], (l, j) => l.append(anfSweep(r, vals, zeros(n), unit(s, j))))
    val zmat = fromCols(xc.foldl([], (l, c) => l.append(c.z)), s)
    val jmat = fromCols(xc.foldl([], (l, c) => l.append(c.y)), m)
    val lmat = fromCols(wc.foldl([], (l, c) => l.append(c.z)), s)
    val ymat = fromCols(wc.foldl([], (l, c) => l.append(c.y)), m)
    val z = absOps(r).foldl([], (l, o) => l.append(vals[o.a]))
    { z: z, a: vsub(z, matVec(lmat, vabs(z))), b: zeros(m).foldl([], (l, x) => l.append(x - dot(ymat[l.length()], vabs(z)))),
      zmat: zmat, lmat: lmat, jmat: jmat, ymat: ymat }
  }

  /// solve z' = a + Z dx + L|z'| row by row, then dy = b + J dx + Y|z'|
  pure def anfSolve(f: Anf, dx: List[int]): { z: List[int], dy: List[int] } = {
    val s = f.z.length()
    val z = range(0, s).foldl([], (z, i) =>
      z.append(f.a[i] + dot(f.zmat[i], dx) + range(0, i).foldl(0, (t, j) => t + fmul(f.lmat[i][j], babs(z[j])))))
    val dy = range(0, f.b.length()).foldl([], (l, i) => l.append(f.b[i] + dot(f.jmat[i], dx) + dot(f.ymat[i], vabs(z))))
    { z: z, dy: dy }
  }

  // ------------------------------------------------------------------
  // Active affine piece.  Independent of the matrices above: an affine sweep
  // in which each absolute value is replaced by a fixed sign times its argument.
  // ------------------------------------------------------------------
  type Piece = { sigma: List[int], mult: int, zs: List[int] }

  /// signs of the switching variables at x+dx along the piecewise linearisation
  pure def activeSigns(r: Recd, vals: List[int], dx: List[int], bits: List[bool]): Piece = {
    val dv = fsweep(r, vals, dx)
    absOps(r).foldl({ sigma: [], mult: 0, zs: [] }, (p, o) =>
      val z = vals[o.a] + dv[o.a]
      if (z == 0)
        { sigma: p.sigma.append(if (p.mult < bits.length() and bits[p.mult]) 1 else -1), mult: p.mult + 1, zs: p.zs.append(z) }
      else { sigma: p.sigma.append(bsgn(z)), mult: p.mult, zs: p.zs.append(z) })
  }

  pure def affineSweep(r: Recd, vals: List[int], sigma: List[int], dx: List[int]): List[int] = {
    val start = range(0, dx.length()).foldl(zeros(vals.length()), (v, k) => v.replaceAt(r.indeps[k], dx[k]))
    val s = r.ops.foldl({ dv: start, k: 0 }, (s, o) =>
      if (o.code == "Const") s
      else if (o.code == "Abs")
        { dv: s.dv.replaceAt(o.vid, sigma[s.k] * (vals[o.a] + s.dv[o.a]) - babs(vals[o.a])), k: s.k + 1 }
      else if (o.b < 0) { dv: s.dv.replaceAt(o.vid, fmul(unaryD(o.code, vals[o.a]), s.dv[o.a])), k: s.k }
      else
        val t1 = if (s.dv[o.a] == 0) 0 else fmul(binD1(o.code, vals[o.a], vals[o.b]), s.dv[o.a])
        val t2 = if (s.dv[o.b] == 0) 0 else fmul(binD2(o.code, vals[o.a], vals[o.b]), s.dv[o.b])
        { dv: s.dv.replaceAt(o.vid, t1 + t2), k: s.k })
    pick(s.dv, r.deps)
  }

  type GenJac = { h: List[List[int]], g: List[int], mult: int }

  pure def genJac(r: Recd, vals: List[int], dx: List[int], bits: List[bool]): GenJac = {
    val n = r.indeps.length()
    val m = r.deps.length()
    val p = activeSigns(r, vals, dx, bits)
    val g = affineSweep(r, vals, p.sigma, zeros(n))
    val cols = range(0, n).foldl([], (l, j) => l.append(vsub(affineSweep(r, vals, p.sigma, unit(n, j)), g)))
    { h: fromCols(cols, m), g: g, mult: p.mult }
  }

  /// (H2, g2, k) after (H, g, mult)
  pure def compose(nxt: GenJac, m: int, n: int, gj: GenJac): GenJac =
    { h: matMul(nxt.h, gj.h, m, n), g: vadd(nxt.g, matVec(nxt.h, gj.g)), mult: nxt.mult + gj.mult }

  // ------------------------------------------------------------------
  // Well-formedness of a recording (single assignment, operands defined before use)
  // ------------------------------------------------------------------
  pure def wellFormed(r: Recd): bool = {
    val n = r.vals.length()
    val defined = r.indeps.concat(r.ops.foldl([], (l, o) => l.append(o.vid)))
    and {
      defined.length() == n,
      range(0, n).foldl(true, (ok, i) => ok and defined.select(d => d == i).length() == 1),
      r.ops.foldl(true, (ok, o) => ok and o.a < o.vid and o.b < o.vid and (o.code == "Const" iff o.a < 0)),
      r.deps.foldl(true, (ok, d) => ok and 0 <= d and d < n),
    }
  }
  pure def selfConsistent(r: Recd, vals: List[int]): bool =
    r.ops.foldl(true, (ok, o) => ok and (o.code == "Const" or opVal(o, vals) == vals[o.vid]))

  // ---- derivative rules against central differences of the function definitions ----
  pure val H: int = 2^(128 - 40)
  pure def diffClose(d: int, fp: int, fm: int): bool =
    babs(d - fdiv(fp - fm, 2 * H)) <= (2^(128 - 40)) * (1 + babs(d) / ONE)
  run unaryDerivativeTest = assert(
    Set("Sin", "Cos", "Tan", "Abs", "Exp", "Ln", "Asin", "Acos", "Atan").forall(c =>
      range(-30, 31).foldl(true, (ok, k) =>
        val x = frat(k * 7 + 3, 17)
        ok and (unaryDom(c, x) and unaryDom(c, x + H) and unaryDom(c, x - H) implies and {
          diffClose(unaryD(c, x), unaryVal(c, x + H), unaryVal(c, x - H)),
          diffClose(unaryDD(c, x), unaryD(c, x + H), unaryD(c, x - H)),
        }))))
  run binaryDerivativeTest = assert(
    Set("Add", "Sub", "Mul", "Div", "Powf").forall(c =>
      range(-9, 10).foldl(true, (ok, i) => range(-9, 10).foldl(ok, (ok2, j) =>
        val x = frat(i * 5 + 2, 9)
        val y = frat(j * 3 + 1, 7)
        ok2 and (binDom(c, x, y, false) implies
          diffClose(binD1(c, x, y), binVal(c, x + H, y), binVal(c, x - H, y))
          and diffClose(binD2(c, x, y), binVal(c, x, y + H), binVal(c, x, y - H)))))))
  run integerPowerDerivativeTest = assert(
    range(-4, 6).foldl(true, (ok, n) => range(-7, 8).foldl(ok, (ok2, i) =>
      val x = frat(i, 2)
      ok2 and (binDom("Powf", x, fint(n), true) implies
        diffClose(binD1("Powf", x, fint(n)), fpowi(x + H, n), fpowi(x - H, n))))))
}
