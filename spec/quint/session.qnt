// -*- mode: Bluespec; -*-
/// A user session with one recording context: variables are created, combined,
/// marked and queried; tapes are taken, cloned, replayed and differentiated.
/// Every transition logs the call and the observation the toolkit must make.
/// Behaviours of this machine are replayed against the real library.
module session {
  import fx.* from "./fx"
  import ad.* from "./ad"

  /// "smooth": every differentiable operation;  "exact": dyadic arithmetic with
  /// absolute values, kinks hit exactly;  "kinks": the same with many ties at once;
  /// "mixed": everything, kinks avoided
  const PROFILE: str
  /// bound on the number of recording steps before tapes are taken
  const BUILD: int
  /// number of independents created up front
  const WIDTH: int

  /// A user-visible scalar: value; derivatives d and g along two independent directions (the outer and the inner one
  /// of a nested scalar) and the mixed second derivative e; recorded id (-1: not recorded); sm: e is meaningful
  type Var = { v: int, d: int, g: int, e: int, id: int, sm: bool }
  type TapeS = { r: Recd, vals: List[int], absFree: bool }
  type Ev = { act: str, op: str, form: str, i: int, j: int, c: int, d: int, k: int,
              xs: List[int], bits: List[bool], out: List[int], flag: bool,
              mats: List[List[int]], mats2: List[List[int]], g2: List[int], ops: List[Op] }
  type St = { r: Recd, vars: List[Var], tapes: List[TapeS], nbuild: int, steps: int, remarks: int, elem: bool, last: Ev }

  var S: St
  var seed: int

  pure val ev0: Ev = { act: "", op: "", form: "", i: -1, j: -1, c: 0, d: 0, k: -1, xs: [], bits: [], out: [],
                       flag: true, mats: [], mats2: [], g2: [], ops: [] }


  /// many variables, dependents, absolute values
  pure val LARGE: bool = WIDTH > 60
  pure val KINKS: bool = PROFILE == "kinks"
  pure val EXACT: bool = PROFILE == "exact" or KINKS
  pure val SMOOTH: bool = PROFILE == "smooth"

  pure val SPECIAL: List[int] = [0, ONE, -ONE, frat(1, 2), frat(-1, 2), fint(2), fint(-2), fint(3), frat(1, 64), frat(-75, 2), fint(100)]
  pure def numSmooth(r: int, k: int): int =
    if (rnd(r, 7 * k + 1, 5) == 0) SPECIAL[rnd(r, 7 * k + 2, SPECIAL.length())]
    else frat(rnd(r, 7 * k + 3, 129) - 64, 16)
  pure def numExact(r: int, k: int): int =
    if (rnd(r, 7 * k + 1, 4) == 0) frat(rnd(r, 7 * k + 2, 17) - 8, 2) else fint(rnd(r, 7 * k + 3, 7) - 3)
  pure def num(r: int, k: int): int = if (KINKS) fint(rnd(r, 7 * k + 3, 3) - 1) else if (EXACT) numExact(r, k) else numSmooth(r, k)
  pure def dir(r: int, k: int): int = if (rnd(r, 5 * k + 1001, 4) == 0) 0 else frat(rnd(r, 5 * k + 1002, 17) - 8, if (EXACT) 2 else 4)
  pure def vec(r: int, n: int, f: (int, int) => int): List[int] = range(0, n).foldl([], (l, k) => l.append(f(r, k + 3)))

  // ---------------- scalars ----------------
  pure val E_MAX: int = fint(2^22)
  pure def mkVar(v: int, d: int, g: int, e: int, id: int, sm: bool): Var =
    { v: v, d: d, g: g, e: e, id: id, sm: sm and babs(e) <= E_MAX }

  pure def okNum(x: int): bool = if (EXACT) isDyadic(x, 16) and babs(x) <= fint(2^12) else true
  pure def okVar(x: Var): bool = babs(x.v) <= VMAX and babs(x.d) <= DMAX and babs(x.g) <= DMAX and okNum(x.v) and okNum(x.d) and okNum(x.g)

  pure def constIn(r: Recd, x: Var): { r: Recd, id: int } =
    if (x.id >= 0) { r: r, id: x.id }
    else
      val vid = r.vals.length()
      { r: { ...r, vals: r.vals.append(x.v), ops: r.ops.append({ code: "Const", vid: vid, a: -1, b: -1 }) }, id: vid }

  type Res = { r: Recd, x: Var, ok: bool }
  pure def bad(r: Recd, x: Var): Res = { r: r, x: x, ok: false }

  /// apply an elementary function, recording it when the operand is recorded
  pure def un(s: Res, c: str, x: Var): Res =
    if (not(s.ok) or not(unaryDom(c, x.v))) bad(s.r, x)
    else
      val f0 = unaryVal(c, x.v)
      val d = if (c == "Abs") babs(x.v + x.d) - babs(x.v) else fmul(unaryD(c, x.v), x.d)
      val g = if (c == "Abs") babs(x.v + x.g) - babs(x.v) else fmul(unaryD(c, x.v), x.g)
      val e = if (c == "Abs") 0 else fmul(unaryDD(c, x.v), fmul(x.d, x.g)) + fmul(unaryD(c, x.v), x.e)
      val vid = s.r.vals.length()
      val y = mkVar(f0, d, g, e, if (x.id < 0) -1 else vid, x.sm and c != "Abs")
      if (not(okVar(y))) bad(s.r, x)
      else if (x.id < 0) { r: s.r, x: y, ok: true }
      else { r: { ...s.r, vals: s.r.vals.append(f0), ops: s.r.ops.append({ code: c, vid: vid, a: x.id, b: -1 }) }, x: y, ok: true }

  pure def binJet(c: str, x: Var, y: Var): { v: int, d: int, g: int, e: int } =
    if (c == "Add") { v: x.v + y.v, d: x.d + y.d, g: x.g + y.g, e: x.e + y.e }
    else if (c == "Sub") { v: x.v - y.v, d: x.d - y.d, g: x.g - y.g, e: x.e - y.e }
    else if (c == "Mul") { v: fmul(x.v, y.v), d: fmul(x.d, y.v) + fmul(x.v, y.d), g: fmul(x.g, y.v) + fmul(x.v, y.g),
                           e: fmul(x.e, y.v) + fmul(x.d, y.g) + fmul(x.g, y.d) + fmul(x.v, y.e) }
    else if (c == "Div")
      val q = fdiv(x.v, y.v)
      val qd = fdiv(x.d - fmul(q, y.d), y.v)
      val qg = fdiv(x.g - fmul(q, y.g), y.v)
      { v: q, d: qd, g: qg, e: fdiv(x.e - fmul(qd, y.g) - fmul(qg, y.d) - fmul(q, y.e), y.v) }
    else if (y.d == 0 and y.g == 0 and y.e == 0)
      val p = y.v
      val f1 = binD1("Powf", x.v, p)
      val f2 = if (p == 0 or p == ONE) 0 else if (x.v == 0 and p < fint(2)) 0 else fmul(fmul(p, p - ONE), fpow(x.v, p - fint(2)))
      { v: fpow(x.v, p), d: fmul(f1, x.d), g: fmul(f1, x.g), e: fmul(f2, fmul(x.d, x.g)) + fmul(f1, x.e) }
    else
      // exp(y ln x)
      val ld = fdiv(x.d, x.v)
      val lg = fdiv(x.g, x.v)
      val le = fdiv(x.e, x.v) - fmul(ld, lg)
      val l = fln(x.v)
      val wd = fmul(y.d, l) + fmul(y.v, ld)
      val wg = fmul(y.g, l) + fmul(y.v, lg)
      val we = fmul(y.e, l) + fmul(y.d, lg) + fmul(y.g, ld) + fmul(y.v, le)
      val f = fpow(x.v, y.v)
      { v: f, d: fmul(f, wd), g: fmul(f, wg), e: fmul(f, we + fmul(wd, wg)) }

  pure def bin(s: Res, c: str, x: Var, y: Var): Res =
    if (not(s.ok) or not(binDom(c, x.v, y.v, y.id < 0 and y.d == 0 and y.g == 0 and y.e == 0))) bad(s.r, x)
    else if (EXACT and c == "Div" and not(Set(ONE, -ONE, fint(2), fint(-2), fint(4), frat(1, 2), frat(-1, 2)).contains(y.v))) bad(s.r, x)
    else
      val j = binJet(c, x, y)
      val rec = x.id >= 0 or y.id >= 0
      val ra = if (rec) constIn(s.r, x) else { r: s.r, id: -1 }
      val rb = if (rec) constIn(ra.r, y) else { r: ra.r, id: -1 }
      val vid = rb.r.vals.length()
      val z = mkVar(j.v, j.d, j.g, j.e, if (rec) vid else -1, x.sm and y.sm)
      if (not(okVar(z))) bad(s.r, x)
      else if (not(rec)) { r: s.r, x: z, ok: true }
      else { r: { ...rb.r, vals: rb.r.vals.append(j.v), ops: rb.r.ops.append({ code: c, vid: vid, a: ra.id, b: rb.id }) }, x: z, ok: true }

  pure def lit(c: int): Var = mkVar(c, 0, 0, 0, -1, true)

  /// derived functions of the float interface, by their meaning in elementary steps
  pure def derived(r: Recd, f: str, x: Var, y: Var, c: int): Res = {
    val s: Res = { r: r, x: x, ok: true }
    if (f == "neg") bin(s, "Mul", lit(-ONE), x)
    else if (f == "recip") bin(s, "Div", lit(ONE), x)
    else if (f == "powi") bin(s, "Powf", x, lit(c))
    else if (f == "powf_c") bin(s, "Powf", x, lit(c))
    else if (f == "sqrt") bin(s, "Powf", x, lit(frat(1, 2)))
    else if (f == "cbrt")
      if (x.v >= 0) bin(s, "Powf", x, lit(ONE / 3))
      else { val a = bin(s, "Mul", lit(-ONE), x) val b = bin(a, "Powf", a.x, lit(ONE / 3)) bin(b, "Mul", lit(-ONE), b.x) }
    else if (f == "exp2") bin(s, "Powf", lit(fint(2)), x)
    else if (f == "log") { val a = un(s, "Ln", x) val b = un(a, "Ln", y) bin(b, "Div", a.x, b.x) }
    else if (f == "log2") { val a = un(s, "Ln", x) val b = un(a, "Ln", lit(fint(2))) bin(b, "Div", a.x, b.x) }
    else if (f == "log10") { val a = un(s, "Ln", x) val b = un(a, "Ln", lit(fint(10))) bin(b, "Div", a.x, b.x) }
    else if (f == "mul_add") { val a = bin(s, "Mul", x, y) bin(a, "Add", a.x, lit(c)) }
    else if (f == "hypot") {
      val a = bin(s, "Powf", x, lit(fint(2)))
      val b = bin(a, "Powf", y, lit(fint(2)))
      val t = bin(b, "Add", a.x, b.x)
      bin(t, "Powf", t.x, lit(frat(1, 2)))
    }
    else if (f == "to_degrees") bin(s, "Mul", x, lit(fdiv(fint(180), PI)))
    else if (f == "to_radians") bin(s, "Mul", x, lit(PI / 180))
    else {
      // max, min and the positive difference through the absolute value
      val zero = lit(0)
      val p = if (f == "abs_sub") bin(s, "Sub", x, y) else s
      val u = if (f == "abs_sub") p.x else x
      val w = if (f == "abs_sub") zero else y
      val a = bin(p, "Add", u, w)
      val b = bin(a, "Sub", u, w)
      val d = un(b, "Abs", b.x)
      val e = bin(d, if (f == "min") "Sub" else "Add", a.x, d.x)
      bin(e, "Mul", lit(frat(1, 2)), e.x)
    }
  }

  /// what the derived functions mean on real numbers (second, independent definition)
  pure def derivedMeaning(f: str, x: int, y: int, c: int): int =
    if (f == "neg") -x else if (f == "recip") fdiv(ONE, x)
    else if (f == "sqrt") fsqrt(x)
    else if (f == "max") bmax(x, y) else if (f == "min") bmin(x, y)
    else if (f == "abs_sub") bmax(x - y, 0)
    else if (f == "mul_add") fmul(x, y) + c
    else if (f == "hypot") fsqrt(fmul(x, x) + fmul(y, y))
    else if (f == "exp2") fexp(fmul(x, LN2))
    else if (f == "log2") fdiv(fln(x), LN2)
    else if (f == "log10") fdiv(fln(x), fln(fint(10)))
    else if (f == "log") fdiv(fln(x), fln(y))
    else if (f == "to_degrees") fdiv(fmul(x, fint(180)), PI)
    else if (f == "to_radians") fdiv(fmul(x, PI), fint(180))
    else if (f == "cbrt") bsgn(x) * fpow(babs(x), ONE / 3)
    else fpow(x, c)

  // ---------------- transitions ----------------
  pure def logVar(s: St, e: Ev, x: Var): St = { ...s, last: { ...e, out: [x.v, x.d, x.e, x.g], flag: x.sm, k: x.id } }
  pure def push(s: St, e: Ev, r: Recd, x: Var): St =
    logVar({ ...s, r: r, vars: s.vars.append(x), nbuild: s.nbuild + 1, steps: s.steps + 1 }, { ...e, form: if (e.form == "") "vv" else e.form }, x)
  pure def assignTo(s: St, e: Ev, r: Recd, i: int, x: Var): St =
    logVar({ ...s, r: r, vars: s.vars.replaceAt(i, x), nbuild: s.nbuild + 1, steps: s.steps + 1 }, e, x)
  pure def skip(s: St): St = { ...s, steps: s.steps + 1, last: { ...ev0, act: "skip" } }

  /// a seed: the two directions and the second-order part
  type Seed = { d: int, g: int, e: int }
  pure def seedOf(r: int, k: int): Seed =
    { d: dir(r, k), g: if (rnd(r, 5 * k + 1003, 2) == 0) dir(r, k) else dir(r, k + 500),
      e: if (rnd(r, 5 * k + 1004, 2) == 0) 0 else dir(r, k + 900) }
  pure def newIndep(s: St, v: int, q: Seed): St = {
    val id = s.r.vals.length()
    push(s, { ...ev0, act: "indep", c: v, d: q.d, xs: [q.g, q.e] },
         { ...s.r, indeps: s.r.indeps.append(id), vals: s.r.vals.append(v) }, mkVar(v, q.d, q.g, q.e, id, true))
  }
  pure def newConst(s: St, v: int, q: Seed): St =
    push(if (q.d == 0) s else { ...s, remarks: s.remarks + 1 }, { ...ev0, act: "cst", c: v, d: q.d, xs: [q.g, q.e] }, s.r,
         mkVar(v, q.d, q.g, q.e, -1, true))

  /// mark an existing variable as independent: it continues under a new id
  pure def remark(s: St, i: int): St = {
    val x = s.vars[i]
    val id = s.r.vals.length()
    assignTo({ ...s, remarks: s.remarks + 1 }, { ...ev0, act: "mark", i: i },
      { ...s.r, indeps: s.r.indeps.append(id), vals: s.r.vals.append(x.v) }, i, { ...x, id: id })
  }

  pure def doUnary(s: St, r: int, i: int): St = {
    val fs = if (EXACT) ["Abs"] else if (SMOOTH) ["Sin", "Cos", "Tan", "Exp", "Ln", "Asin", "Acos", "Atan"]
             else ["Sin", "Cos", "Exp", "Ln", "Atan", "Abs", "Abs", "Abs"]
    val o = rnd(r, 11, fs.length())
    range(0, fs.length()).foldl(skip(s), (acc, t) =>
      if (acc.last.act != "skip") acc
      else
        val f = fs[(o + t) % fs.length()]
        val q = un({ r: s.r, x: s.vars[i], ok: true }, f, s.vars[i])
        if (q.ok) push(s, { ...ev0, act: "un", op: f, i: i }, q.r, q.x) else acc)
  }

  pure def doBin(s: St, r: int, i: int, j: int, c: int): St = {
    val os = if (EXACT) ["Add", "Sub", "Mul", "Div"] else ["Add", "Sub", "Mul", "Div", "Powf"]
    val forms = ["vv", "vc", "cv", "av", "ac"]
    val form0 = forms[if (rnd(r, 21, 2) == 0) 0 else rnd(r, 22, 5)]
    val o = rnd(r, 23, os.length())
    range(0, os.length()).foldl(skip(s), (acc, t) =>
      if (acc.last.act != "skip") acc
      else
        val c0 = os[(o + t) % os.length()]
        val form = if (c0 == "Powf") "vv" else form0
        val x = if (form == "cv") lit(c) else s.vars[i]
        val y = if (form == "vc" or form == "ac") lit(c) else s.vars[j]
        val q = bin({ r: s.r, x: x, ok: true }, c0, x, y)
        if (not(q.ok)) acc
        else
          val e = { ...ev0, act: "bin", op: c0, form: form, i: i, j: j, c: c }
          if (form == "av" or form == "ac") assignTo(s, e, q.r, i, q.x) else push(s, e, q.r, q.x))
  }

  pure def doDerived(s: St, r: int, i: int, j: int): St = {
    val fs = if (EXACT) ["max", "min", "neg", "abs_sub", "mul_add", "powi"]
             else if (SMOOTH) ["neg", "recip", "powi", "powf_c", "sqrt", "cbrt", "exp2", "log", "log2", "log10", "mul_add", "hypot", "to_degrees", "to_radians"]
             else ["max", "min", "neg", "abs_sub", "powi", "sqrt", "recip", "mul_add"]
    val o = rnd(r, 31, fs.length())
    range(0, fs.length()).foldl(skip(s), (acc, t) =>
      if (acc.last.act != "skip") acc
      else
        val f = fs[(o + t) % fs.length()]
        val c = if (f == "powi") fint(if (EXACT) rnd(r, 32, 4) else rnd(r, 32, 9) - 3)
                else if (f == "powf_c") frat(rnd(r, 33, 17) - 8, 4)
                else num(r, 34)
        val q = derived(s.r, f, s.vars[i], s.vars[j], c)
        if (not(q.ok)) acc
        else push({ ...s, elem: false }, { ...ev0, act: "der", op: f, i: i, j: j, c: c }, q.r, q.x))
  }

  pure def markDep(s: St, i: int): St = {
    val q = constIn(s.r, s.vars[i])
    { ...s, r: { ...q.r, deps: q.r.deps.append(q.id) }, nbuild: s.nbuild + 1, steps: s.steps + 1,
      last: { ...ev0, act: "dep", i: i, k: q.id } }
  }

  /// several dependents at once
  pure def markDeps(s: St, l: List[int]): St = {
    val q = l.foldl({ r: s.r, ids: [] }, (a, i) => val c = constIn(a.r, s.vars[i]) { r: c.r, ids: a.ids.append(c.id) })
    { ...s, r: { ...q.r, deps: q.r.deps.concat(q.ids) }, nbuild: s.nbuild + 1, steps: s.steps + 1,
      last: { ...ev0, act: "deps", g2: l } }
  }
  /// ((v0 + v1) - v2) + ...: one result out of many variables
  pure def accumulate(s: St, l: List[int]): St = {
    val z = range(1, l.length()).foldl({ r: s.r, x: s.vars[l[0]], ok: true }, (q, k) =>
      bin(q, if (k % 2 == 1) "Add" else "Sub", q.x, s.vars[l[k]]))
    if (z.ok and l.length() > 1) push(s, { ...ev0, act: "acc", g2: l }, z.r, z.x) else skip(s)
  }
  /// an operation applied to many variables, one after the other
  pure def mapUn(s: St, f: str, l: List[int]): St = {
    val z = l.foldl({ r: s.r, xs: [], ok: true }, (q, i) =>
      val w = un({ r: q.r, x: s.vars[i], ok: q.ok }, f, s.vars[i])
      { r: w.r, xs: q.xs.append(w.x), ok: w.ok })
    if (not(z.ok)) skip(s)
    else { ...s, r: z.r, vars: s.vars.concat(z.xs), nbuild: s.nbuild + 1, steps: s.steps + 1,
           last: { ...ev0, act: "map", op: f, g2: l, out: z.xs.foldl([], (o, x) => o.append(x.v)) } }
  }
  pure def someVars(s: St, r: int, k: int): List[int] =
    val nv = s.vars.length()
    val from = rnd(r, k, nv)
    val len = 1 + rnd(r, k + 1, if (LARGE) (if (EXACT) 24 else nv) else 5)
    val step = 1 + rnd(r, k + 2, 3)
    range(0, len).foldl([], (l, q) => l.append((from + q * step) % nv))

  /// comparisons and tests; not compared when the two values are too close to call
  pure def query(s: St, i: int, j: int): St = {
    val a = s.vars[i].v
    val b = s.vars[j].v
    val far = EXACT or i == j or babs(a - b) > ONE / 2^30
    val farc = EXACT or (babs(a) > ONE / 2^30 and babs(a - ONE) > ONE / 2^30)
    pure def b2i(x: bool): int = if (x) 1 else 0
    { ...s, steps: s.steps + 1, last: { ...ev0, act: "query", i: i, j: j, flag: far and farc,
        out: [b2i(a < b), b2i(a == b), b2i(a > b), b2i(a == 0), b2i(a == ONE), b2i(a > 0)] } }
  }

  pure def takeTape(s: St): St = {
    val t = { r: s.r, vals: s.r.vals, absFree: numAbs(s.r) == 0 }
    { ...s, tapes: s.tapes.append(t), steps: s.steps + 1,
      last: { ...ev0, act: "tape", i: s.tapes.length(), flag: s.elem, ops: s.r.ops, mats: [s.r.indeps, s.r.deps], out: s.r.vals } }
  }
  pure def cloneTape(s: St, k: int): St =
    { ...s, tapes: s.tapes.append(s.tapes[k]), steps: s.steps + 1, last: { ...ev0, act: "clone", k: k } }

  /// re-evaluation at a new point; falls back to points closer to the current one
  pure def doReplay(s: St, k: int, r: int): St = {
    val t = s.tapes[k]
    val n = t.r.indeps.length()
    val cur = pick(t.vals, t.r.indeps)
    val cands = [vec(r, n, (a, b) => num(a, b)), range(0, n).foldl([], (l, q) => l.append(cur[q] + dir(r, q + 50))),
                 range(0, n).foldl([], (l, q) => l.append(cur[q] + dir(r, q + 90) / 16)), cur]
    val q = cands.foldl({ done: false, xs: cur, vals: t.vals }, (a, xs) =>
      if (a.done) a
      else
        val w = replay(t.r, t.vals, xs)
        if (w.ok and w.vals.foldl(true, (ok, x) => ok and okNum(x))) { done: true, xs: xs, vals: w.vals } else a)
    if (not(q.done)) skip(s)
    else { ...s, tapes: s.tapes.replaceAt(k, { ...t, vals: q.vals }), steps: s.steps + 1,
           last: { ...ev0, act: "replay", k: k, xs: q.xs, out: q.vals, mats: [outputs(t.r, q.vals)], flag: s.elem } }
  }
  /// re-evaluation at a sequence of points made of extreme numbers (indices into a table: signed zeros, infinities, NaN,
  /// the largest and smallest numbers, ...).  Whatever the values are, the outcome is that of recording afresh there.
  pure def doWild(s: St, k: int, r: int): St = {
    val n = s.tapes[k].r.indeps.length()
    val first = range(0, n).foldl([], (l, q) => l.append(rnd(r, 4 * q + 300, 16)))
    val pts = range(0, 3).foldl([first], (p, t) => p.append(range(0, n).foldl([], (l, q) =>
      // codes 2k and 2k+1 are a number and its negative
      val old = p[t][q]
      val c = rnd(r, 4 * q + 301 + t, 4)
      l.append(if (c == 0) rnd(r, 4 * q + 7001 + t, 16) else if (c == 1) old else if (old % 2 == 0) old + 1 else old - 1))))
    { ...s, steps: s.steps + 1, last: { ...ev0, act: "wild", k: k, mats: pts } }
  }
  pure def doBadReplay(s: St, k: int, r: int): St = {
    val n = s.tapes[k].r.indeps.length()
    val wrong = if (rnd(r, 41, 2) == 0 and n > 0) n - 1 else n + 1
    { ...s, steps: s.steps + 1, last: { ...ev0, act: "badreplay", k: k, xs: vec(r, wrong, (a, b) => num(a, b)) } }
  }
  pure val BIG: int = fint(2^26)
  pure def doForward(s: St, k: int, r: int): St = {
    val t = s.tapes[k]
    val dx = vec(r, t.r.indeps.length(), (a, b) => dir(a, b))
    val dv = fsweep(t.r, t.vals, dx)
    if (maxAbs(dv) > BIG) skip(s)
    else { ...s, steps: s.steps + 1, last: { ...ev0, act: "fwd", k: k, xs: dx, out: pick(dv, t.r.deps) } }
  }
  pure def doReverse(s: St, k: int, r: int): St = {
    val t = s.tapes[k]
    val w = vec(r, t.r.deps.length(), (a, b) => dir(a, b))
    if (not(t.absFree))
      { ...s, steps: s.steps + 1, last: { ...ev0, act: "rev", k: k, xs: w, flag: false } }
    else
      val bar = rsweep(t.r, t.vals, w)
      if (maxAbs(bar) > BIG) skip(s)
      else { ...s, steps: s.steps + 1, last: { ...ev0, act: "rev", k: k, xs: w, out: pick(bar, t.r.indeps) } }
  }
  pure def doJacobian(s: St, k: int): St = {
    val t = s.tapes[k]
    if (not(t.absFree)) skip(s)
    else
      val j = jacobian(t.r, t.vals)
      if (j.foldl(false, (b, row) => b or maxAbs(row) > BIG)) skip(s)
      else { ...s, steps: s.steps + 1,
             last: { ...ev0, act: "jac", k: k, i: t.r.deps.length(), j: t.r.indeps.length(), xs: pick(t.vals, t.r.indeps), mats: j } }
  }
  pure def bigMat(m: List[List[int]]): bool = m.foldl(false, (b, row) => b or maxAbs(row) > fint(2^14))
  pure def doAnf(s: St, k: int, r: int): St = {
    val t = s.tapes[k]
    val f = absNormal(t.r, t.vals)
    val dx = vec(r, t.r.indeps.length(), (a, b) => dir(a, b))
    if (bigMat(f.zmat) or bigMat(f.lmat) or bigMat(f.jmat) or bigMat(f.ymat) or bigMat([f.a, f.b])) skip(s)
    else { ...s, steps: s.steps + 1,
           last: { ...ev0, act: "anf", k: k, i: numAbs(t.r), j: t.r.deps.length(), flag: s.elem,
                   xs: dx, bits: [], g2: pick(t.vals, t.r.indeps),
                   out: f.z.concat(f.a).concat(f.b).concat(forward(t.r, t.vals, dx)),
                   mats: f.zmat.concat(f.lmat).concat(f.jmat).concat(f.ymat) } }
  }
  pure def doGenJac(s: St, k: int, r: int): St = {
    val t = s.tapes[k]
    val n = t.r.indeps.length()
    val m = t.r.deps.length()
    // half of the time go exactly to another lattice point, else a random direction
    val dx = if (rnd(r, 61, 3) == 0) zeros(n) else vec(r, n, (a, b) => dir(a, b))
    val bits = range(0, rnd(r, 62, 4) * 8).foldl([], (l, q) => l.append(rnd(r, 63 + q, 2) == 0))
    val p = activeSigns(t.r, t.vals, dx, bits)
    val clear = EXACT or p.zs.foldl(true, (ok, z) => ok and babs(z) > ONE / 2^10)
    val gj = genJac(t.r, t.vals, dx, bits)
    val withNext = rnd(r, 64, 2) == 0
    val rows = 1 + rnd(r, 65, 3)
    val h2 = range(0, rows).foldl([], (l, i) => l.append(range(0, m).foldl([], (q, j) => q.append(fint(rnd(r, 70 + 7 * i + j, 7) - 3)))))
    val g2 = range(0, rows).foldl([], (l, i) => l.append(fint(rnd(r, 66 + i, 9) - 4)))
    val nxt: GenJac = { h: h2, g: g2, mult: rnd(r, 69, 3) }
    val res = if (withNext) compose(nxt, m, n, gj) else gj
    if (not(clear) or bigMat(gj.h) or bigMat([gj.g])) skip(s)
    else { ...s, steps: s.steps + 1,
           last: { ...ev0, act: "gj", form: if (withNext) "next" else "", k: k, i: m, j: n, c: nxt.mult, d: res.mult,
                   xs: dx, bits: bits, out: res.g, mats: res.h, mats2: if (withNext) h2 else [], g2: if (withNext) g2 else [],
                   ops: [] } }
  }

  // ---------------- the machine ----------------
  action init = {
    nondet q = 0.to(2^62).oneOf()
    val r = mix(q, 0, 5)
    val n = rnd(q, 6, WIDTH + 1)
    val n1 = if (LARGE) (if (EXACT) 1 + rnd(q, 8, 12) else 48 + rnd(q, 8, WIDTH - 47))
             else if (n == 0 and rnd(r, 999, 4) != 0) 1 else n
    all { seed' = mix(q, 0, 7), S' = range(0, n1).foldl({ r: emptyRec, vars: [], tapes: [], nbuild: 0, steps: 0, remarks: 0, elem: true,
                             last: { ...ev0, act: "start" } }, (s, k) => newIndep(s, num(r, k), seedOf(r, k))) }
  }

  pure def build(s: St, kind: int, i0: int, j0: int, r: int): St = {
    val nv = s.vars.length()
    if (nv == 0) { if (rnd(r, 2, 2) == 0) newIndep(s, num(r, 1), seedOf(r, 1)) else newConst(s, num(r, 1), seedOf(r, 1)) }
    else {
      // favour recent variables, so that programs get deep
      val i = if (i0 % 2 == 0) nv - 1 - (i0 / 2) % (if (nv < 3) nv else 3) else (i0 / 2) % nv
      val j = if (j0 % 3 == 0) i else (j0 / 3) % nv
      if (LARGE and rnd(r, 2004, 4) == 0) accumulate(s, someVars(s, r, 3000))
      else if (LARGE and EXACT and rnd(r, 2005, 4) == 0) mapUn(s, "Abs", someVars(s, r, 3003))
      else if (LARGE and rnd(r, 2006, 4) == 0 or rnd(r, 2007, 40) == 0) markDeps(s, someVars(s, r, 3006))
      else if (rnd(r, 2008, 40) == 0) accumulate(s, someVars(s, r, 3009))
      else if (rnd(r, 2009, 60) == 0) mapUn(s, if (SMOOTH) "Atan" else "Abs", someVars(s, r, 3012))
      else if (kind < 26 or (KINKS and rnd(r, 991, 3) == 0)) doUnary(s, r, i)
      else if (kind < 62) doBin(s, r, i, j, num(r, 5))
      else if (kind < 74) { if (s.elem and rnd(r, 77, 3) != 0) doBin(s, r, i, j, num(r, 5)) else doDerived(s, r, i, j) }
      else if (kind < 78) newConst(s, num(r, 6), if (rnd(r, 8, 2) == 0) { d: 0, g: 0, e: 0 } else seedOf(r, 6))
      else if (kind < 82) newIndep(s, num(r, 6), seedOf(r, 6))
      else if (kind < 84) remark(s, i)
      // the same variable twice in a row, a constant more often than by chance
      else if (kind < 93) {
        val constants = range(0, nv).select(k => s.vars[k].id < 0)
        val k = if (constants.length() > 0 and rnd(r, 2010, 3) == 0) constants[i % constants.length()] else i
        if (rnd(r, 2011, 5) == 0) markDeps(s, [k, k]) else markDep(s, k)
      }
      else query(s, i, j)
    }
  }

  action recordStep = {
    nondet q = 0.to(2^62).oneOf()
    val r = mix(seed, q, 1)
    all { seed' = mix(seed, q, 2), S' = build(S, rnd(r, 2001, 100), rnd(r, 2002, 998), rnd(r, 2003, 998), r) }
  }

  pure def useTape(s: St, kind: int, k0: int, i0: int, r: int): St = {
    if (s.r.deps.length() == 0 and s.vars.length() > 0 and rnd(r, 500, 8) != 0) markDep(s, s.vars.length() - 1)
    else if (s.tapes.length() == 0) { if (rnd(r, 501, 2) == 0 and s.vars.length() > 0) markDep(s, i0 % s.vars.length()) else takeTape(s) }
    else {
      val k = k0 % s.tapes.length()
      if (kind < 4) doWild(s, k, r)
      else if (kind < 22) doReplay(s, k, r)
      else if (kind < 36) doForward(s, k, r)
      else if (kind < 50) { if (SMOOTH) doReverse(s, k, r) else doAnf(s, k, r) }
      else if (kind < 60) { if (SMOOTH) doJacobian(s, k) else doGenJac(s, k, r) }
      else if (kind < 68) doAnf(s, k, r)
      else if (kind < 80) doGenJac(s, k, r)
      else if (kind < 83) doReverse(s, k, r)
      else if (kind < 86) doJacobian(s, k)
      else if (kind < 89) doBadReplay(s, k, r)
      else if (kind < 93) cloneTape(s, k)
      else if (kind < 95) takeTape(s)
      else build(s, (kind * 31 + k0) % 100, i0, k0, r)
    }
  }
  action useStep = {
    nondet q = 0.to(2^62).oneOf()
    val r = mix(seed, q, 1)
    all { seed' = mix(seed, q, 2), S' = useTape(S, rnd(r, 2001, 100), rnd(r, 2002, 998), rnd(r, 2003, 998), r) }
  }

  action step = if (S.steps < BUILD) recordStep else useStep

  // ---------------- properties of the specification itself ----------------
  /// relative agreement to 2^-44
  pure def near(a: int, b: int): bool = babs(a - b) <= ONE / 2^44 * (1 + (babs(a) + babs(b)) / ONE)

  val recordingWellFormed = wellFormed(S.r) and S.tapes.foldl(true, (ok, t) => ok and wellFormed(t.r))
  val recordingConsistent = selfConsistent(S.r, S.r.vals) and
    S.tapes.foldl(true, (ok, t) => ok and range(0, t.r.ops.length()).foldl(true, (ok2, k) =>
      val o = t.r.ops[k]
      ok2 and (o.code == "Const" or near(opVal(o, t.vals), t.vals[o.vid]))))
  /// a tape is a prefix of the recording it was taken from
  val tapesArePrefixes = S.tapes.foldl(true, (ok, t) =>
    ok and t.r.ops.length() <= S.r.ops.length() and t.r.ops == S.r.ops.slice(0, t.r.ops.length())
       and t.r.indeps == S.r.indeps.slice(0, t.r.indeps.length()))
  /// <w, J dx> = <J^T w, dx>
  val duality = S.tapes.foldl(true, (ok, t) =>
    ok and (t.absFree implies
      val n = t.r.indeps.length()
      val m = t.r.deps.length()
      val dx = range(0, n).foldl([], (l, k) => l.append(fint(1 + k % 3)))
      val w = range(0, m).foldl([], (l, k) => l.append(fint(2 - k % 4)))
      near(dot(w, forward(t.r, t.vals, dx)), dot(reverse(t.r, t.vals, w), dx))))
  /// the forward sweep agrees with a one-sided difference of the replayed function
  val sweepIsDerivative = S.tapes.foldl(true, (ok, t) =>
    ok and (t.absFree implies
      val n = t.r.indeps.length()
      val h = 2^(128 - 50)
      val x = pick(t.vals, t.r.indeps)
      val dx = range(0, n).foldl([], (l, k) => l.append(ONE - 2 * ONE * (k % 2)))
      val w = replay(t.r, t.vals, range(0, n).foldl([], (l, k) => l.append(x[k] + fmul(h, dx[k]))))
      val dv = fsweep(t.r, t.vals, dx)
      not(w.ok) or maxAbs(dv) > fint(1024) or
        range(0, t.r.deps.length()).foldl(true, (ok2, q) =>
          val id = t.r.deps[q]
          ok2 and babs(dv[id] - fdiv(w.vals[id] - t.vals[id], h)) <= ONE / 2^16 * (1 + babs(dv[id]) / ONE))))
  /// forward-mode scalars and the forward sweep over the recording tell the same derivative:
  /// sweep along the seeds of the independents (constants must carry no derivative themselves)
  val scalarsAgreeWithSweep =
    val seeds = S.r.indeps.foldl([], (l, i) => l.append(
      S.vars.foldl(0, (d, x) => if (x.id == i) x.d else d)))
    val plain = S.r.indeps.foldl(true, (ok, i) => ok and S.vars.select(x => x.id == i).length() == 1) and S.remarks == 0
    not(plain) or
      val dv = fsweep(S.r, S.r.vals, seeds)
      S.vars.foldl(true, (ok, x) => ok and (x.id < 0 or near(dv[x.id], x.d)))
  /// replaying at the stored point changes nothing
  val replayIdempotent = S.tapes.foldl(true, (ok, t) =>
    val w = replay(t.r, t.vals, pick(t.vals, t.r.indeps))
    ok and w.ok and w.vals == t.vals)
  /// abs-normal form: L strictly lower triangular, z = a + L|z|, 0 = b + Y|z|, and it
  /// reproduces the increments of the piecewise linearisation
  val anfReproduces = S.tapes.foldl(true, (ok, t) =>
    val f = absNormal(t.r, t.vals)
    val s = f.z.length()
    val n = t.r.indeps.length()
    val zero = anfSolve(f, zeros(n))
    val dx = range(0, n).foldl([], (l, k) => l.append(frat(3 - k % 5, 2)))
    val some = anfSolve(f, dx)
    val pl = forward(t.r, t.vals, dx)
    ok and range(0, s).foldl(true, (o2, i) => o2 and range(i, s).foldl(true, (o3, j) => o3 and f.lmat[i][j] == 0))
       and range(0, s).foldl(true, (o2, i) => o2 and near(zero.z[i], f.z[i]))
       and range(0, f.b.length()).foldl(true, (o2, i) => o2 and near(zero.dy[i], 0))
       and (maxAbs(pl) > fint(2^20) or range(0, f.b.length()).foldl(true, (o2, i) => o2 and near(some.dy[i], pl[i]))))
  /// the active piece agrees with the piecewise linearisation at dx, whatever the sign bits
  val pieceIsActive = S.tapes.foldl(true, (ok, t) =>
    val n = t.r.indeps.length()
    val dx = range(0, n).foldl([], (l, k) => l.append(frat(k % 4 - 1, 2)))
    val pl = forward(t.r, t.vals, dx)
    ok and Set([], [true, true, false, true], [false, true]).forall(bits =>
      val gj = genJac(t.r, t.vals, dx, bits)
      maxAbs(pl) > fint(2^20) or range(0, pl.length()).foldl(true, (o2, i) =>
        o2 and near(dot(gj.h[i], dx) + gj.g[i], pl[i]))))
  /// the derived functions mean what the real functions mean
  val derivedMeansIt = S.last.act == "der" implies
    val e = S.last
    near(e.out[0], derivedMeaning(e.op, S.vars[e.i].v, S.vars[e.j].v, e.c))

  // witnesses: reachable situations the session must exercise
  val wSharedOperand = S.r.ops.select(o => o.a >= 0 and o.a == o.b).length() > 0
  val wDupDep = S.r.deps.length() > 1 and range(1, S.r.deps.length()).foldl(false, (b, k) => b or S.r.deps[k] == S.r.deps[0])
  val wDepIsIndep = S.r.deps.foldl(false, (b, d) => b or S.r.indeps.select(i => i == d).length() > 0)
  val wDepFeedsOp = S.r.deps.foldl(false, (b, d) => b or S.r.ops.select(o => o.a == d or o.b == d).length() > 0)
  val wKink = S.last.act == "gj" and S.last.d > 0
  val wNested = S.r.ops.select(o => o.code == "Abs").length() > 2
  val wReplayed = S.last.act == "replay"
  val wTwoTapes = S.tapes.length() > 1
}

module smooth { import session(PROFILE = "smooth", BUILD = 14, WIDTH = 4).* from "./session" }
module exact { import session(PROFILE = "exact", BUILD = 14, WIDTH = 4).* from "./session" }
module mixed { import session(PROFILE = "mixed", BUILD = 14, WIDTH = 4).* from "./session" }
module smoothbig { import session(PROFILE = "smooth", BUILD = 26, WIDTH = 12).* from "./session" }
module exactbig { import session(PROFILE = "exact", BUILD = 34, WIDTH = 9).* from "./session" }
module kinks { import session(PROFILE = "kinks", BUILD = 30, WIDTH = 4).* from "./session" }
module smoothwide { import session(PROFILE = "smooth", BUILD = 12, WIDTH = 110).* from "./session" }
module exactwide { import session(PROFILE = "exact", BUILD = 14, WIDTH = 110).* from "./session" }
