// -*- mode: Bluespec; -*-
/// Single calls of the float interface on operands of any magnitude and class (signed zeros, infinities, NaN included):
/// the value, the first-order part, comparisons, classification, conversions, constants and refusals.
/// Numbers are sign, mantissa (scaled by 2^128, in [2^127, 2^128)) and exponent, so relative accuracy does not depend on size.
module numbers {
  import fx.* from "./fx"

  /// value = m / 2^128 * 2^e for c = "fin"; zero is m = 0
  type X = { c: str, neg: bool, m: int, e: int }
  type Ev = { kind: str, ty: str, op: str, form: int, x: X, y: X, z: X, dx: X, dy: X, recx: bool, recy: bool, n: int,
              out: X, signed: bool, bits: int, hasd: bool, d: X, dmag: X, bools: List[bool], words: List[str],
              conv: List[{ target: str, some: bool, i: int, x: X, exact: bool }],
              hasa: bool, ax: X, ay: X, aout: X, nod: bool, list: List[{ x: X, how: str }] }
  var last: Ev
  var seed: int

  // ---------------- numbers ----------------
  pure val NAN: X = { c: "nan", neg: false, m: 0, e: 0 }
  pure def inf(neg: bool): X = { c: "inf", neg: neg, m: 0, e: 0 }
  pure def zero(neg: bool): X = { c: "fin", neg: neg, m: 0, e: 0 }
  pure def isZ(x: X): bool = x.c == "fin" and x.m == 0
  pure def fin(x: X): bool = x.c == "fin"
  pure def nz(x: X): bool = x.c == "fin" and x.m != 0
  /// from an integer mantissa of any size at scale 2^-s
  pure def norm(neg: bool, m: int, s: int): X =
    if (m == 0) zero(neg) else
      val b = [2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl({ m: m, n: 0 }, (a, k) =>
        if (a.m >= 2^k) { m: a.m / 2^k, n: a.n + k } else a)
      // 2^n <= m < 2^(n+1)
      val n = b.n + 1
      { c: "fin", neg: neg, m: if (n <= 128) m * 2^(128 - n) else m / 2^(n - 128), e: n - s }
  /// from a fixed-point number of fx, times 2^k
  pure def ofFx(v: int, k: int): X = norm(v < 0, babs(v), 128 - k)
  /// fixed-point value; only for |e| < 100
  pure def toFx(x: X): int = { val v = if (x.e >= 0) x.m * 2^x.e else x.m / 2^(-x.e) if (x.neg) -v else v }
  pure def fxOk(x: X): bool = isZ(x) or (nz(x) and x.e < 60 and x.e > -60)
  pure val W1: X = ofFx(ONE, 0)
  pure val W2: X = ofFx(fint(2), 0)
  pure def sgn(x: X): int = if (isZ(x)) 0 else if (x.neg) -1 else 1
  pure def flip(x: X): X = { ...x, neg: not(x.neg) }
  pure def absX(x: X): X = { ...x, neg: false }

  /// the nearest number of p bits, ties to even
  pure def roundTo(p: int, x: X): X =
    if (not(nz(x))) x
    else
      val u = 2^(128 - p)
      val q = x.m / u
      val rest = x.m % u
      val up = 2 * rest > u or (2 * rest == u and q % 2 == 1)
      norm(x.neg, (if (up) q + 1 else q) * u, 128 - x.e)

  // ---------------- arithmetic with the special cases of IEEE 754 ----------------
  pure def add(x: X, y: X): X =
    if (x.c == "nan" or y.c == "nan") NAN
    else if (x.c == "inf") (if (y.c == "inf" and x.neg != y.neg) NAN else x)
    else if (y.c == "inf") y
    else if (isZ(x) and isZ(y)) zero(x.neg and y.neg)
    else if (isZ(x)) y
    else if (isZ(y)) x
    else
      val hi = if (x.e >= y.e) x else y
      val lo = if (x.e >= y.e) y else x
      val d = hi.e - lo.e
      if (d > 300) hi
      else
        val a = (if (hi.neg) -hi.m else hi.m) * 2^d + (if (lo.neg) -lo.m else lo.m)
        if (a == 0) zero(false) else norm(a < 0, babs(a), 128 - lo.e)
  pure def sub(x: X, y: X): X = add(x, flip(y))
  pure def mul(x: X, y: X): X =
    if (x.c == "nan" or y.c == "nan") NAN
    else if (x.c == "inf" or y.c == "inf") (if (isZ(x) or isZ(y)) NAN else inf(x.neg != y.neg))
    else if (isZ(x) or isZ(y)) zero(x.neg != y.neg)
    else norm(x.neg != y.neg, x.m * y.m, 256 - x.e - y.e)
  pure def div(x: X, y: X): X =
    if (x.c == "nan" or y.c == "nan") NAN
    else if (x.c == "inf") (if (y.c == "inf") NAN else inf(x.neg != y.neg))
    else if (y.c == "inf") zero(x.neg != y.neg)
    else if (isZ(y)) (if (isZ(x)) NAN else inf(x.neg != y.neg))
    else if (isZ(x)) zero(x.neg != y.neg)
    else norm(x.neg != y.neg, x.m * 2^256 / y.m, 256 - x.e + y.e)
  pure def cmpFin(x: X, y: X): int = { val d = sub(x, y) sgn(d) }
  pure def less(x: X, y: X): bool =
    if (x.c == "nan" or y.c == "nan") false
    else if (x.c == "inf" and y.c == "inf") x.neg and not(y.neg)
    else if (x.c == "inf") x.neg
    else if (y.c == "inf") not(y.neg)
    else cmpFin(x, y) < 0
  pure def same(x: X, y: X): bool =
    if (x.c == "nan" or y.c == "nan") false
    else if (x.c == "inf" or y.c == "inf") x.c == y.c and x.neg == y.neg
    else cmpFin(x, y) == 0

  // ---------------- functions ----------------
  /// e^x = 2^k e^r
  pure def expX(x: X): X =
    if (x.c == "nan") NAN
    else if (x.c == "inf") (if (x.neg) zero(false) else x)
    else if (isZ(x) or x.e < -120) W1
    else if (x.e > 12) (if (x.neg) zero(false) else inf(false))
    else
      val f = toFx(x)
      val k = f / LN2
      ofFx(fexp(f - k * LN2), k)
  pure def lnX(x: X): X =
    if (x.c == "nan") NAN
    else if (isZ(x)) inf(true)
    else if (x.neg) NAN
    else if (x.c == "inf") x
    else
      // in [1/2, 1) or, near one, in [1/2, 2)
      if (x.e == 1 and x.m < 3 * 2^126) { val v = 2 * x.m ofFx(fln(v), 0) }
      else { val v = fln(x.m) + x.e * LN2 ofFx(v, 0) }
  /// reduced modulo 2 pi; operands up to 2^40
  pure def circle(x: X): int = { val f = toFx(x) val t = 2 * PI f - (f / t) * t }
  pure def sinX(x: X): X = if (not(fin(x))) NAN else if (isZ(x)) x else if (x.e < -30) sub(x, div(mul(x, mul(x, x)), ofFx(fint(6), 0))) else ofFx(fsin(circle(x)), 0)
  pure def cosX(x: X): X = if (not(fin(x))) NAN else if (isZ(x) or x.e < -60) W1 else ofFx(fcos(circle(x)), 0)
  pure def tanX(x: X): X = if (not(fin(x))) NAN else if (isZ(x)) x else if (x.e < -30) add(x, div(mul(x, mul(x, x)), ofFx(fint(3), 0))) else ofFx(ftan(circle(x)), 0)
  pure def big1(x: X): bool = less(W1, absX(x))
  pure def asinX(x: X): X =
    if (x.c == "nan" or big1(x)) NAN else if (isZ(x)) x else if (x.e < -30) add(x, div(mul(x, mul(x, x)), ofFx(fint(6), 0)))
    else if (same(absX(x), W1)) ofFx(if (x.neg) -PI / 2 else PI / 2, 0) else ofFx(fasin(toFx(x)), 0)
  pure def acosX(x: X): X =
    if (x.c == "nan" or big1(x)) NAN
    else if (same(absX(x), W1)) (if (x.neg) ofFx(PI, 0) else zero(false))
    else if (x.e < -60) ofFx(PI / 2, 0) else ofFx(facos(toFx(x)), 0)
  pure def atanX(x: X): X =
    if (x.c == "nan") NAN else if (x.c == "inf" or (nz(x) and x.e > 58)) ofFx(if (x.neg) -PI / 2 else PI / 2, 0)
    else if (isZ(x)) x else if (x.e < -30) sub(x, div(mul(x, mul(x, x)), ofFx(fint(3), 0))) else ofFx(fatan(toFx(x)), 0)

  /// integer? odd?
  pure def isInteger(x: X): bool = isZ(x) or (nz(x) and x.e > 0 and (x.e >= 128 or x.m % 2^(128 - x.e) == 0))
  pure def isOdd(x: X): bool = nz(x) and x.e > 0 and x.e <= 128 and isInteger(x) and (x.m / 2^(128 - x.e)) % 2 == 1
  pure def powPos(x: X, y: X): X = expX(mul(y, lnX(x)))
  /// x^y with the special cases of IEEE 754
  pure def powX(x: X, y: X): X =
    if (isZ(y)) W1
    else if (same(x, W1)) W1
    else if (x.c == "nan" or y.c == "nan") NAN
    else if (isZ(x))
      (if (y.neg) inf(x.neg and isOdd(y)) else zero(x.neg and isOdd(y)))
    else if (y.c == "inf")
      (if (same(absX(x), W1)) W1 else if (less(absX(x), W1) == y.neg) inf(false) else zero(false))
    else if (x.c == "inf")
      { val s = x.neg and isOdd(y) if (y.neg) zero(s) else inf(s) }
    else if (x.neg)
      (if (not(isInteger(y))) NAN else { val p = powPos(absX(x), y) { ...p, neg: isOdd(y) } })
    else powPos(x, y)

  pure def unX(op: str, x: X): X =
    if (op == "abs") absX(x) else if (op == "exp") expX(x) else if (op == "ln") lnX(x) else if (op == "sin") sinX(x)
    else if (op == "cos") cosX(x) else if (op == "tan") tanX(x) else if (op == "asin") asinX(x) else if (op == "acos") acosX(x)
    else if (op == "atan") atanX(x) else if (op == "neg") flip(x) else if (op == "recip") div(W1, x)
    else if (op == "sqrt") (if (isZ(x)) x else if (x.neg) NAN else powX(x, ofFx(ONE / 2, 0)))
    else if (op == "exp2") powX(W2, x)
    else if (op == "log2") div(lnX(x), ofFx(LN2, 0))
    else if (op == "log10") div(lnX(x), lnX(ofFx(fint(10), 0)))
    else if (op == "cbrt") (if (isZ(x)) x else { val p = powX(absX(x), div(W1, ofFx(fint(3), 0))) { ...p, neg: x.neg } })
    else if (op == "to_degrees") div(mul(x, ofFx(fint(180), 0)), ofFx(PI, 0))
    else if (op == "to_radians") div(mul(x, ofFx(PI, 0)), ofFx(fint(180), 0))
    else NAN
  pure def binX(op: str, x: X, y: X): X =
    if (op == "add") add(x, y) else if (op == "sub") sub(x, y) else if (op == "mul") mul(x, y) else if (op == "div") div(x, y)
    else if (op == "powf") powX(x, y) else if (op == "log") div(lnX(x), lnX(y))
    else if (op == "max") (if (less(x, y)) y else x) else if (op == "min") (if (less(x, y)) x else y)
    else if (op == "abs_sub") (if (less(x, y)) zero(false) else sub(x, y))
    else if (op == "copysign") { ...x, neg: y.neg }
    else // hypot
      val s = add(mul(x, x), mul(y, y))
      if (isZ(s)) s else powX(s, ofFx(ONE / 2, 0))

  // ---------------- derivatives of the elementary functions ----------------
  pure def one_x2(x: X): X = sub(W1, mul(x, x))
  pure def rt(x: X): X = powX(x, ofFx(ONE / 2, 0))
  pure def unD(op: str, x: X): X =
    if (op == "exp") expX(x) else if (op == "ln") div(W1, x) else if (op == "sin") cosX(x) else if (op == "cos") flip(sinX(x))
    else if (op == "tan") div(W1, mul(cosX(x), cosX(x))) else if (op == "asin") div(W1, rt(one_x2(x)))
    else if (op == "acos") flip(div(W1, rt(one_x2(x)))) else if (op == "atan") div(W1, add(W1, mul(x, x)))
    else if (op == "neg") flip(W1) else if (op == "recip") flip(div(W1, mul(x, x)))
    else if (op == "sqrt") div(W1, mul(W2, rt(x))) else if (op == "exp2") mul(ofFx(LN2, 0), powX(W2, x))
    else if (op == "log2") div(W1, mul(x, ofFx(LN2, 0))) else if (op == "log10") div(W1, mul(x, lnX(ofFx(fint(10), 0))))
    else if (op == "cbrt") div(unX("cbrt", x), mul(ofFx(fint(3), 0), x))
    else if (op == "to_degrees") div(ofFx(fint(180), 0), ofFx(PI, 0)) else div(ofFx(PI, 0), ofFx(fint(180), 0))
  /// the two terms of the derivative of a binary operation
  pure def binD(op: str, x: X, y: X, dx: X, dy: X): { a: X, b: X } =
    if (op == "add") { a: dx, b: dy } else if (op == "sub") { a: dx, b: flip(dy) }
    else if (op == "mul") { a: mul(dx, y), b: mul(x, dy) }
    else if (op == "div") { a: div(dx, y), b: flip(mul(div(x, y), div(dy, y))) }
    else if (op == "log") { val l = lnX(y) { a: div(dx, mul(x, l)), b: flip(mul(div(lnX(x), mul(l, l)), div(dy, y))) } }
    else if (op == "hypot") { val h = binX("hypot", x, y) { a: mul(div(x, h), dx), b: mul(div(y, h), dy) } }
    else // powf
      val v = powX(x, y)
      { a: if (isZ(dx)) zero(false) else mul(mul(y, powX(x, sub(y, W1))), dx), b: if (isZ(dy)) zero(false) else mul(mul(lnX(x), v), dy) }

  // ---------------- generation ----------------
  /// a finite number with at most `p` significant bits and exponent in lo..hi
  pure def gen(r: int, k: int, p: int, lo: int, hi: int): X =
    val neg = rnd(r, k, 2) == 0
    val kind = rnd(r, k + 1, 6)
    val e = lo + rnd(r, k + 2, hi - lo + 1)
    if (kind == 0) norm(neg, 1, -e)
    else if (kind == 1) norm(neg, if (rnd(r, k + 3, 3) == 0) 1 else 1 + rnd(r, k + 3, 12), 0)
    else if (kind == 2) norm(neg, 1 + rnd(r, k + 3, 64), 4)
    else norm(neg, 2^(p - 1) + (rnd(r, k + 3, 2^22) * 2^22 + rnd(r, k + 4, 2^22)) % 2^(p - 1), p - e)
  pure def special(r: int, k: int): X = {
    val j = rnd(r, k, 9)
    if (j == 0) NAN else if (j == 1) inf(false) else if (j == 2) inf(true) else if (j == 3) zero(false) else if (j == 4) zero(true)
    else if (j == 5) W1 else if (j == 6) flip(W1) else if (j == 7) ofFx(ONE / 2, 0) else ofFx(fint(3), 0)
  }
  pure def isF32(ty: str): bool = ty == "f32" or ty == "nf32"
  pure def prec(ty: str): int = if (isF32(ty)) 24 else 53
  pure def emax(ty: str): int = if (isF32(ty)) 128 else 1024
  pure val TYPES: List[str] = ["f64", "f32", "nf64", "nf32"]
  pure def fits(ty: str, x: X): bool = not(nz(x)) or (babs(x.e) < emax(ty) - 4)
  /// what a float of the type makes of a result: infinite or zero beyond its range (too close to call: not fin and not special)
  pure def settle(ty: str, x: X): { ok: bool, x: X } =
    if (not(nz(x))) { ok: true, x: x }
    else if (x.e > emax(ty) + 1) { ok: true, x: inf(x.neg) }
    else if (x.e > emax(ty) - 2) { ok: false, x: x }
    else { ok: true, x: x }

  pure val ev0: Ev = { kind: "", ty: "", op: "", form: 0, x: NAN, y: NAN, z: NAN, dx: NAN, dy: NAN, recx: false, recy: false, n: 0,
                       out: NAN, signed: false, bits: 0, hasd: false, d: NAN, dmag: NAN, bools: [], words: [], conv: [],
                       hasa: false, ax: NAN, ay: NAN, aout: NAN, nod: false, list: [] }

  pure val UN: List[str] = ["abs", "exp", "ln", "sin", "cos", "tan", "asin", "acos", "atan", "neg", "recip", "sqrt", "exp2", "log2", "log10", "cbrt",
                            "to_degrees", "to_radians"]
  pure val BIN: List[str] = ["add", "sub", "mul", "div", "powf", "add", "sub", "mul", "div", "powf", "log", "max", "min", "abs_sub", "hypot", "copysign"]
  pure def elementary(op: str): bool = Set("abs", "exp", "ln", "sin", "cos", "tan", "asin", "acos", "atan", "neg", "recip", "add", "sub", "mul", "div", "powf").contains(op)

  /// operand ranges in which the specification and a float implementation can be compared
  pure def unArg(r: int, op: str, ty: str): X =
    val p = prec(ty)
    val w = emax(ty) - 10
    if (elementary(op) and rnd(r, 70, 4) == 0) special(r, 71)
    else if (Set("exp", "exp2").contains(op)) gen(r, 72, p, -40, if (isF32(ty)) 8 else 11)
    else if (Set("sin", "cos", "tan").contains(op)) gen(r, 72, p, -40, 38)
    else if (Set("asin", "acos").contains(op)) (if (rnd(r, 80, 8) == 0) gen(r, 72, p, -20, 3) else { val g = gen(r, 72, p, -40, -1) if (big1(g)) ofFx(ONE / 2, 0) else g })
    else if (Set("ln", "log2", "log10", "sqrt").contains(op)) (if (op == "ln" and rnd(r, 80, 8) == 0) gen(r, 72, p, -w, w) else absX(gen(r, 72, p, -w, w)))
    else if (op == "recip") gen(r, 72, p, -w, w)
    else if (Set("to_degrees", "to_radians").contains(op)) gen(r, 72, p, -w / 2, w / 2)
    else gen(r, 72, p, -w, w)
  pure def dseed(r: int, k: int): X = if (rnd(r, k, 4) == 0) zero(false) else gen(r, k + 1, 12, -12, 12)

  pure def smallE(x: X, b: int): bool = not(nz(x)) or babs(x.e) <= b
  /// magnitudes at which intermediate results of any sensible formula neither overflow nor underflow
  pure def tame(ty: str, x: X): bool = fin(x) and smallE(x, emax(ty) - 30)

  pure def tolBits(op: str, ty: str): int =
    if (isF32(ty)) (if (Set("cbrt", "exp2", "log", "log2", "log10", "hypot").contains(op)) 15 else 19)
    else if (Set("cbrt", "exp2", "log", "log2", "log10", "hypot").contains(op)) 42 else 48
  /// x^y amplifies the rounding of nothing, but powf by repeated squaring or exp(y ln x) may lose bits of the exponent
  /// a recorded call, re-evaluated at other operands (the recording may not depend on the numbers it was made with, but for
  /// the branches of the roots)
  pure def again(e: Ev, x2: X, y2: X): Ev = {
    val ax = if (e.recx) x2 else e.x
    val ay = if (e.recy) y2 else e.y
    val out = if (BIN.foldl(false, (b, o) => b or o == e.op)) settle(e.ty, binX(e.op, ax, ay))
              else if (e.op == "mul_add") settle(e.ty, add(mul(ax, ay), e.z))
              else if (e.op == "powi") settle(e.ty, powX(ax, norm(e.n < 0, babs(e.n), 0)))
              else settle(e.ty, unX(e.op, ax))
    val ok = and { e.recx or e.recy, e.op != "copysign", e.op != "cbrt" or (nz(e.x) and nz(ax) and e.x.neg == ax.neg),
                   fin(ax) or not(e.recx), fin(ay) or not(e.recy), out.ok, not(nz(out.x)) or tame(e.ty, out.x), fin(out.x) }
    if (ok) { ...e, hasa: true, ax: ax, ay: ay, aout: out.x } else e
  }
  pure def unary(r: int, ty: str): Ev = {
    val op = UN[rnd(r, 1, UN.length())]
    val x = unArg(r, op, ty)
    val x2 = unArg(mix(r, 17, 3), op, ty)
    val dx = dseed(r, 20)
    val out = settle(ty, unX(op, x))
    val recx = rnd(r, 30, 2) == 0
    val inDom = and { nz(x) or (isZ(x) and Set("exp", "sin", "cos", "tan", "asin", "acos", "atan", "neg", "exp2").contains(op)),
                      not(Set("ln", "log2", "log10", "sqrt").contains(op) and (x.neg or isZ(x))),
                      not(Set("asin", "acos").contains(op) and not(less(absX(x), ofFx(frat(63, 64), 0)))), op != "abs" }
    val der = if (inDom) mul(unD(op, x), dx) else NAN
    val okd = and { inDom, nz(out.x) or isZ(out.x), tame(ty, der), tame(ty, unD(op, x)),
                    not(Set("recip", "sqrt", "cbrt").contains(op)) or smallE(x, emax(ty) - 40),
                    not(op == "atan") or smallE(x, emax(ty) / 2 - 10),
                    op != "tan" or smallE(unX("tan", x), if (isF32(ty)) 6 else 20) }
    if (not(out.ok)) { ...ev0, kind: "skip" }
    else again({ ...ev0, kind: "op", ty: ty, op: op, form: rnd(r, 31, 3), x: x, dx: dx, recx: recx, out: out.x, signed: elementary(op), bits: tolBits(op, ty),
           hasd: okd, d: if (okd) der else NAN, dmag: if (okd) absX(der) else NAN }, x2, x2)
  }
  pure def absEv(r: int, ty: str): Ev = {
    val x = gen(r, 72, prec(ty), -20, 20)
    val dx = dseed(r, 20)
    { ...ev0, kind: "op", ty: ty, op: "abs", x: x, dx: dx, recx: rnd(r, 30, 2) == 0, out: absX(x), signed: true, bits: tolBits("abs", ty),
      hasd: true, d: sub(absX(add(x, dx)), absX(x)), dmag: add(absX(x), absX(dx)) }
  }
  pure def binArgs(r: int, op: str, ty: str): { x: X, y: X } = {
    val p = prec(ty)
    val w = emax(ty) - 10
    val spec = elementary(op) and rnd(r, 70, 5) == 0
    // exponents whose neighbours are not representable
    val huge = op == "powf" and rnd(r, 98, 6) == 0
    val x0 = if (huge) (if (rnd(r, 99, 2) == 0) norm(rnd(r, 78, 3) > 0, 1, 0) else norm(rnd(r, 78, 3) > 0, 2^20 + rnd(r, 79, 5) - 2, 20))
            else if (spec and rnd(r, 74, 2) == 0) special(r, 71)
            else if (op == "powf") gen(r, 72, p, -20, 20) else if (Set("max", "min", "abs_sub", "hypot").contains(op)) gen(r, 72, p, -6, 6)
            else if (op == "log") absX(gen(r, 72, p, -20, 20)) else if (rnd(r, 75, 3) == 0) gen(r, 72, p, -w, w) else gen(r, 72, p, -12, 12)
    val y0 = if (huge) roundTo(p, norm(rnd(r, 82, 2) == 0, 2^(20 + rnd(r, 83, 42)) + rnd(r, 84, 4), 0))
            else if (spec) special(r, 91)
            else if (op == "powf") (if (rnd(r, 94, 2) == 0) norm(rnd(r, 95, 2) == 0, rnd(r, 96, 9), 0) else gen(r, 92, p, -6, 3))
            else if (Set("max", "min", "abs_sub", "hypot").contains(op)) (if (rnd(r, 97, 5) == 0) x0 else gen(r, 92, p, -6, 6))
            else if (op == "log") { val b = absX(gen(r, 92, p, -20, 20)) if (less(absX(sub(b, W1)), ofFx(ONE / 8, 0))) W2 else b }
            else if (rnd(r, 93, 3) == 0) gen(r, 92, p, -w, w) else gen(r, 92, p, -12, 12)
    { x: x0, y: y0 }
  }
  pure def binary(r: int, ty: str): Ev = {
    val op = BIN[rnd(r, 1, BIN.length())]
    val args = binArgs(r, op, ty)
    val x0 = args.x
    val y0 = args.y
    val other = binArgs(mix(r, 17, 3), op, ty)
    val dx = dseed(r, 20)
    val dy = dseed(r, 25)
    val raw = binX(op, x0, y0)
    val out = settle(ty, raw)
    val inDom = and { fin(x0), fin(y0), fin(out.x), not(Set("max", "min", "abs_sub", "copysign").contains(op)),
                      op != "div" or nz(y0), op != "log" or (sgn(x0) > 0), op != "hypot" or nz(raw),
                      op != "powf" or (nz(x0) and (isZ(dy) or not(x0.neg))) }
    val t = if (inDom) binD(op, x0, y0, dx, dy) else { a: NAN, b: NAN }
    val der = if (inDom) add(t.a, t.b) else NAN
    val okd = and { inDom, tame(ty, t.a), tame(ty, t.b), tame(ty, out.x) }
    // cancellation in x - y or x + y is exact for the operands given; everything else is a single rounding
    if (not(out.ok) or (Set("max", "min", "abs_sub").contains(op) and not(fin(out.x)))) { ...ev0, kind: "skip" }
    else again({ ...ev0, kind: "op", ty: ty, op: op, form: rnd(r, 31, 6), x: x0, y: y0, dx: dx, dy: dy, recx: rnd(r, 30, 2) == 0, recy: rnd(r, 32, 2) == 0,
           out: out.x, signed: elementary(op), bits: tolBits(op, ty), hasd: okd, d: if (okd) der else NAN,
           dmag: if (okd) add(absX(t.a), absX(t.b)) else NAN }, other.x, other.y)
  }

  // ---------------- queries ----------------
  pure def anyX(r: int, k: int, ty: str): X =
    if (rnd(r, k, 3) == 0) special(r, k + 1)
    else { val lo = if (isF32(ty)) -148 else -1073 val g = gen(r, k + 2, prec(ty), if (rnd(r, k + 9, 4) == 0) lo else -30, if (rnd(r, k + 9, 4) == 1) emax(ty) - 1 else 30)
           // keep subnormals exact: few bits
           if (nz(g) and g.e - prec(ty) < lo) norm(g.neg, 1 + rnd(r, k + 3, 3), -bmax(g.e, lo)) else g }
  pure def normalX(ty: str, x: X): bool = nz(x) and x.e >= (if (isF32(ty)) -125 else -1021)
  pure def compare(r: int, ty: str): Ev = {
    val x = anyX(r, 40, ty)
    val y = if (rnd(r, 61, 3) == 0) (if (rnd(r, 62, 2) == 0) x else if (fin(x)) flip(x) else x) else anyX(r, 50, ty)
    { ...ev0, kind: "compare", ty: ty, x: x, y: y, dx: dseed(r, 20), dy: dseed(r, 25), recx: rnd(r, 30, 2) == 0, recy: rnd(r, 32, 2) == 0,
      bools: [less(x, y), less(y, x), same(x, y), less(x, y) or same(x, y), less(y, x) or same(x, y), not(same(x, y))] }
  }
  pure def classify(r: int, ty: str): Ev = {
    val x = anyX(r, 40, ty)
    { ...ev0, kind: "classify", ty: ty, x: x, dx: dseed(r, 20), recx: rnd(r, 30, 2) == 0,
      bools: [x.c == "nan", x.c == "inf", fin(x), normalX(ty, x), isZ(x), same(x, W1), x.neg and x.c != "nan"],
      words: [if (x.c == "nan") "Nan" else if (x.c == "inf") "Infinite" else if (isZ(x)) "Zero" else if (normalX(ty, x)) "Normal" else "Subnormal"] }
  }

  // ---------------- conversions ----------------
  /// the integer part, toward zero; only for moderate exponents
  pure def truncI(x: X): int =
    if (isZ(x) or x.e <= 0) 0 else { val v = if (x.e >= 128) x.m * 2^(x.e - 128) else x.m / 2^(128 - x.e) if (x.neg) -v else v }
  pure val INTS: List[{ target: str, lo: int, hi: int }] = [
    { target: "i8", lo: -2^7, hi: 2^7 - 1 }, { target: "u8", lo: 0, hi: 2^8 - 1 }, { target: "i16", lo: -2^15, hi: 2^15 - 1 }, { target: "u16", lo: 0, hi: 2^16 - 1 },
    { target: "i32", lo: -2^31, hi: 2^31 - 1 }, { target: "u32", lo: 0, hi: 2^32 - 1 }, { target: "i64", lo: -2^63, hi: 2^63 - 1 }, { target: "u64", lo: 0, hi: 2^64 - 1 },
    { target: "i128", lo: -2^127, hi: 2^127 - 1 }, { target: "u128", lo: 0, hi: 2^128 - 1 }, { target: "isize", lo: -2^63, hi: 2^63 - 1 }, { target: "usize", lo: 0, hi: 2^64 - 1 }]
  pure def convert(r: int, ty: str): Ev = {
    val x = if (rnd(r, 63, 3) == 0) gen(r, 40, prec(ty), -3, 70) else anyX(r, 40, ty)
    val t = if (fin(x) and (isZ(x) or x.e < 200)) truncI(x) else 2^300
    val ints = INTS.foldl([], (l, k) =>
      val some = fin(x) and t >= k.lo and t <= k.hi
      l.append({ target: k.target, some: some, i: if (some) t else 0, x: NAN, exact: true }))
    // to a narrower float: rounded, infinite beyond its range; too close to the limits: left out
    val narrow = not(isF32(ty))
    val f32ok = not(nz(x)) or not(narrow) or (x.e < 127 and x.e > -120) or x.e > 130
    val f32v = if (nz(x) and x.e > 130) inf(x.neg) else roundTo(24, x)
    val fl = [{ target: "f64", some: true, i: 0, x: x, exact: true }].concat(
      if (f32ok) [{ target: "f32", some: true, i: 0, x: f32v, exact: true }] else [])
    { ...ev0, kind: "convert", ty: ty, x: x, dx: if (rnd(r, 22, 8) == 0) special(r, 23) else dseed(r, 20), recx: rnd(r, 30, 2) == 0, conv: ints.concat(fl) }
  }
  /// from a plain number of some type into the scalar
  pure def fromPlain(r: int, ty: str): Ev = {
    val srcs = ["f64", "f32", "i32", "u8", "i64", "u64", "i128", "usize"]
    val src = srcs[rnd(r, 1, srcs.length())]
    val p = prec(ty)
    val isF = Set("f64", "f32").contains(src)
    // every f32 value, or any double of moderate size
    val g = if (src == "f64" and rnd(r, 7, 2) == 0) gen(r, 48, 53, -30, 30) else anyX(r, 40, "f32")
    // integers of any size, also close to the middle between two floats of either precision
    val width = if (src == "u8") 8 else if (src == "i32") 31 else if (src == "i128") 127 else 63
    val w = 1 + rnd(r, 2, width)
    val wide = rnd(r, 10, 2^22) * 2^110 + rnd(r, 11, 2^22) * 2^88 + rnd(r, 12, 2^22) * 2^66 + rnd(r, 13, 2^22) * 2^44 + rnd(r, 14, 2^22) * 2^22 + rnd(r, 15, 2^22)
    val q = if (rnd(r, 16, 2) == 0) 24 else 53
    val k = if (rnd(r, 17, 2) == 0 or w < q + 3) wide % 2^w
            else { val odd = (2^(q - 1) + wide % 2^(q - 1)) * 2 + 1 odd * 2^(w - q - 1) + rnd(r, 18, 3) - 1 }
    val n = if (Set("u8", "u64", "usize").contains(src) or rnd(r, 19, 2) == 0) k else -k
    val i = if (src == "u8") n % 256 else n
    { ...ev0, kind: "from", ty: ty, op: src, n: i, x: if (isF) g else norm(i < 0, babs(i), 0), out: roundTo(p, if (isF) g else norm(i < 0, babs(i), 0)) }
  }
  /// the explicit cast between scalar types keeps value, first-order part and identity
  pure def castEv(r: int, ty: str): Ev = {
    val target = TYPES[rnd(r, 1, 4)]
    val narrow = isF32(target) and not(isF32(ty))
    val x = if (rnd(r, 64, 4) == 0) special(r, 41) else gen(r, 40, prec(ty), -60, 60)
    val d = if (rnd(r, 65, 4) == 0) special(r, 46) else gen(r, 45, prec(ty), -60, 60)
    { ...ev0, kind: "cast", ty: ty, op: target, x: x, dx: d, recx: rnd(r, 30, 2) == 0, out: x, d: d, signed: not(narrow), bits: if (narrow) 23 else 60 }
  }

  pure val UNSUPPORTED: List[str] = ["floor", "ceil", "round", "trunc", "fract", "signum", "exp_m1", "ln_1p", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "atan2", "rem"]
  pure def anyArg(r: int, k: int, ty: str): X =
    val j = rnd(r, k + 8, 3)
    if (j == 0) special(r, k) else if (j == 1) norm(rnd(r, k, 2) == 0, rnd(r, k + 1, 4), 0) else gen(r, k, prec(ty), -8, 8)
  /// refused, or else answered with the value of the plain float (computed by the caller)
  pure def unsupported(r: int, ty: str): Ev =
    { ...ev0, kind: "unsupported", ty: ty, op: UNSUPPORTED[rnd(r, 1, UNSUPPORTED.length())], x: anyArg(r, 40, ty), y: anyArg(r, 50, ty),
      dx: dseed(r, 20), dy: dseed(r, 25), recx: rnd(r, 30, 2) == 0, recy: rnd(r, 32, 2) == 0 }
  pure def constantEv(r: int, ty: str): Ev = {
    val f = isF32(ty)
    val p = prec(ty)
    val table = [{ k: "nan", x: NAN }, { k: "infinity", x: inf(false) }, { k: "neg_infinity", x: inf(true) }, { k: "neg_zero", x: zero(true) },
               { k: "zero", x: zero(false) }, { k: "one", x: W1 },
               { k: "max_value", x: norm(false, 2^p - 1, p - emax(ty)) }, { k: "min_value", x: norm(true, 2^p - 1, p - emax(ty)) },
               { k: "min_positive_value", x: norm(false, 1, if (f) 126 else 1022) }, { k: "epsilon", x: norm(false, 1, p - 1) },
               { k: "parse 12.5", x: ofFx(frat(25, 2), 0) }, { k: "parse -0.75", x: ofFx(frat(-3, 4), 0) }, { k: "parse bad", x: NAN }]
    val c = table[rnd(r, 1, table.length())]
    { ...ev0, kind: "constant", ty: ty, op: c.k, x: c.x }
  }
  /// the signed integer power and the fused multiply-add
  pure def powi(r: int, ty: str): Ev = {
    val huge = rnd(r, 76, 4) == 0
    val x = if (rnd(r, 70, 5) == 0) special(r, 71)
            else if (huge and rnd(r, 77, 2) == 0) norm(rnd(r, 78, 2) == 0, 2^20 + rnd(r, 79, 9) - 4, 20)
            else gen(r, 72, prec(ty), -8, 8)
    // exponents up to the limits of the type, also such that single precision cannot hold them
    val n = if (huge) { val k = 4 + rnd(r, 74, 28) val m = 2^k + rnd(r, 75, 5) - 2
                        if (rnd(r, 82, 2) == 0) (if (m > 2^31) -2^31 else -m) else if (m > 2^31 - 1) 2^31 - 1 else m }
            else if (rnd(r, 73, 4) == 0) rnd(r, 74, 121) - 60 else rnd(r, 75, 11) - 5
    val y = norm(n < 0, babs(n), 0)
    val dx = dseed(r, 20)
    val out = settle(ty, powX(x, y))
    val der = if (nz(x)) (if (n == 0) zero(false) else mul(mul(y, powX(x, sub(y, W1))), dx)) else NAN
    val okd = nz(x) and nz(out.x) and tame(ty, der) and tame(ty, powX(x, sub(y, W1)))
    if (not(out.ok) or (nz(out.x) and not(tame(ty, out.x)))) { ...ev0, kind: "skip" }
    else again({ ...ev0, kind: "op", ty: ty, op: "powi", n: n, x: x, dx: dx, recx: rnd(r, 30, 2) == 0, out: out.x, signed: true, bits: if (isF32(ty)) 15 else 42,
           hasd: okd, d: if (okd) der else NAN, dmag: if (okd) absX(der) else NAN }, gen(mix(r, 17, 3), 72, prec(ty), -4, 4), W1)
  }
  pure def mulAdd(r: int, ty: str): Ev = {
    pure def g(k: int): X = if (rnd(r, k + 9, 8) == 0) special(r, k) else gen(r, k, prec(ty), -10, 10)
    val x = g(40) val y = g(50) val z = g(60)
    val dx = dseed(r, 20)
    val dy = dseed(r, 25)
    val out = add(mul(x, y), z)
    val ok = fin(x) and fin(y) and fin(z)
    val a = if (ok) mul(dx, y) else NAN
    val b = if (ok) mul(x, dy) else NAN
    again({ ...ev0, kind: "op", ty: ty, op: "mul_add", x: x, y: y, z: z, dx: dx, dy: dy, recx: rnd(r, 30, 2) == 0, recy: rnd(r, 32, 2) == 0,
      // relative to the larger of the two summands
      out: out, signed: false, bits: if (isF32(ty)) 19 else 48, hasd: ok, d: if (ok) add(a, b) else NAN,
      dmag: if (ok) add(add(absX(a), absX(b)), zero(false)) else NAN }, g(100), g(120))
  }

  /// independents, constants and results of any class marked as dependents one after the other, the same one repeatedly and
  /// equal ones included: every mark leaves its own value (the sign of a zero included)
  pure def marks(r: int, ty: str): Ev = {
    val pool = range(0, 3).foldl([], (l, k) => l.append(if (rnd(r, 100 + k, 3) == 0) anyArg(r, 110 + 10 * k, ty) else zero(rnd(r, 101 + k, 2) == 0)))
    val n = 2 + rnd(r, 99, 5)
    { ...ev0, kind: "marks", ty: ty,
      list: range(0, n).foldl([], (l, k) => l.append({ x: pool[rnd(r, 140 + 2 * k, 3)], how: ["constant", "constant", "independent", "double"][rnd(r, 141 + 2 * k, 4)] })) }
  }
  val marksKept = last.kind == "marks" implies last.list.length() >= 2
  val wTwoZeros = last.kind == "marks" and range(1, last.list.length()).foldl(false, (b, k) => b or
    (last.list[k].how == "constant" and last.list[k - 1].how == "constant" and isZ(last.list[k].x) and isZ(last.list[k - 1].x) and last.list[k].x.neg != last.list[k - 1].x.neg))

  pure def event(r: int): Ev = {
    val ty = TYPES[rnd(r, 5, 4)]
    val k = rnd(r, 6, 100)
    if (k < 30) unary(r, ty) else if (k < 34) absEv(r, ty) else if (k < 62) binary(r, ty) else if (k < 67) powi(r, ty)
    else if (k < 70) mulAdd(r, ty) else if (k < 76) compare(r, ty) else if (k < 81) classify(r, ty) else if (k < 87) convert(r, ty)
    else if (k < 90) fromPlain(r, ty) else if (k < 94) castEv(r, ty) else if (k < 96) unsupported(r, ty) else if (k < 98) constantEv(r, ty) else marks(r, ty)
  }
  action init = { nondet q = 0.to(2^62).oneOf() all { seed' = mix(q, 0, 7), last' = ev0 } }
  action step = {
    nondet q = 0.to(2^62).oneOf()
    all { seed' = mix(seed, q, 2), last' = event(mix(seed, q, 1)) }
  }

  // ---------------- what has to hold of the specification itself ----------------
  pure def near(a: X, b: X, k: int): bool =
    if (not(fin(a)) or not(fin(b))) a.c == b.c and (a.c == "nan" or a.neg == b.neg)
    else { val d = sub(a, b) isZ(d) or d.e <= bmax(if (nz(a)) a.e else -2000, if (nz(b)) b.e else -2000) - k }
  val trichotomy = last.kind == "compare" implies
    (if (last.x.c == "nan" or last.y.c == "nan") not(last.bools[0]) and not(last.bools[1]) and not(last.bools[2]) and last.bools[5]
     else [0, 1, 2].select(i => last.bools[i]).length() == 1)
  val oneClass = last.kind == "classify" implies
    (last.bools[0] or last.bools[1] or last.bools[2]) and not(last.bools[0] and last.bools[2]) and (last.bools[4] implies last.bools[2])
  /// inverse functions, sums and products undo each other
  val inverses = last.kind == "op" implies and {
    (last.op == "exp" and nz(last.out) and nz(last.x) and babs(last.x.e) < 9 and last.x.e > -8) implies near(lnX(last.out), last.x, 90),
    (last.op == "ln" and nz(last.out)) implies near(expX(last.out), last.x, 80),
    (last.op == "add" and nz(last.out) and nz(last.x) and nz(last.y) and babs(last.x.e - last.y.e) < 30) implies near(sub(last.out, last.y), last.x, 60),
    (last.op == "div" and nz(last.out) and nz(last.y)) implies near(mul(last.out, last.y), last.x, 110),
    (last.op == "mul" and nz(last.out) and nz(last.y)) implies near(div(last.out, last.y), last.x, 110),
    (last.op == "sqrt" and nz(last.out)) implies near(mul(last.out, last.out), last.x, 90),
    (last.op == "cbrt" and nz(last.out)) implies near(mul(mul(last.out, last.out), last.out), last.x, 90),
    (last.op == "tan" and nz(last.out) and nz(last.x)) implies near(div(sinX(last.x), cosX(last.x)), last.out, 60),
    (last.op == "atan" and nz(last.out) and fin(last.x) and last.x.e < 20) implies near(tanX(last.out), last.x, 60),
    (last.op == "powi" and nz(last.out) and last.n == 2) implies near(mul(last.x, last.x), last.out, 90) }
  /// derivatives agree with difference quotients
  val derivatives = (last.kind == "op" and last.hasd and nz(last.x) and Set("exp", "ln", "sin", "cos", "tan", "atan", "recip", "sqrt", "exp2", "log2", "cbrt").contains(last.op)
                     and babs(last.x.e) < 5 and nz(last.d) and nz(last.dx)) implies
    val h = { ...last.x, neg: false, e: last.x.e - 30 }
    val q = div(sub(unX(last.op, add(last.x, h)), unX(last.op, sub(last.x, h))), mul(W2, h))
    near(mul(q, last.dx), last.d, 25) or last.op == "tan" or last.d.e < last.dx.e - 10
  /// rounding is idempotent and to the nearest
  val rounding = Set("from", "convert").contains(last.kind) and nz(last.x) implies Set(24, 53).forall(p =>
    val y = roundTo(p, last.x)
    val u = { ...W1, e: last.x.e - p }
    roundTo(p, y) == y and not(less(u, absX(sub(y, last.x)))) and y.m % 2^(128 - p) == 0)
  val wAgain = last.kind == "op" and last.hasa
  val wTie = last.kind == "from" and nz(last.x) and last.x.m % 2^104 == 2^103 and last.x.e > 40
  val wSpecial = last.kind == "op" and not(fin(last.x))
  val wNan = last.kind == "op" and fin(last.x) and last.out.c == "nan"
  val wOverflow = last.kind == "op" and fin(last.x) and last.out.c == "inf"
  val wDerivative = last.kind == "op" and last.hasd
}
