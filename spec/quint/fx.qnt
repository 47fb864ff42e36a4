// -*- mode: Bluespec; -*-
/// Fixed-point real arithmetic and the elementary functions of the toolkit,
/// defined from first principles (series, argument reduction, Newton), so that
/// the specification has its own meaning for every operation and does not share
/// a line with the implementation.  A number x is represented by x * 2^128.
module fx {
  pure val ONE: int = 2^128

  pure def babs(x: int): int = if (x < 0) -x else x
  pure def bsgn(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0
  pure def bmax(x: int, y: int): int = if (x < y) y else x
  pure def bmin(x: int, y: int): int = if (x < y) x else y

  pure def fmul(a: int, b: int): int = a * b / ONE
  pure def fdiv(a: int, b: int): int = a * ONE / b
  /// num/den as a fixed-point number
  pure def frat(num: int, den: int): int = num * ONE / den
  pure def fint(n: int): int = n * ONE

  pure def isInt(x: int): bool = (x % ONE) == 0
  /// x is a multiple of 2^-k
  pure def isDyadic(x: int, k: int): bool = (x % (2^(128 - k))) == 0

  /// square root of x >= 0, Newton iteration from above
  pure def fsqrt(x: int): int =
    if (x <= 0) 0 else
      range(0, 90).foldl({ y: bmax(x, ONE), go: true }, (s, i) =>
        if (not(s.go)) s else
          val y2 = (s.y + fdiv(x, s.y)) / 2
          if (y2 >= s.y) { y: s.y, go: false } else { y: y2, go: true }).y

  /// e^x : e^(x/256) by its Taylor series, then eight squarings
  pure def fexp(x: int): int = {
    val r = x / 256
    val t = range(1, 24).foldl({ s: ONE, t: ONE }, (acc, k) =>
      val u = fmul(acc.t, r) / k
      { s: acc.s + u, t: u })
    range(0, 8).foldl(t.s, (y, i) => fmul(y, y))
  }

  /// 2*atanh(t) for |t| <= 0.34
  pure def atanh2(t: int): int = {
    val tt = fmul(t, t)
    val r = range(0, 42).foldl({ s: 0, p: t }, (acc, k) =>
      { s: acc.s + acc.p / (2 * k + 1), p: fmul(acc.p, tt) })
    2 * r.s
  }
  pure val LN2: int = atanh2(ONE / 3)

  /// ln x for x > 0
  pure def fln(x: int): int = {
    val up = range(0, 40).foldl({ m: x, k: 0 }, (a, i) =>
      if (a.m > frat(3, 2)) { m: a.m / 2, k: a.k + 1 } else a)
    val m = range(0, 40).foldl(up, (a, i) =>
      if (a.m < frat(3, 4)) { m: a.m * 2, k: a.k - 1 } else a)
    m.k * LN2 + atanh2(fdiv(m.m - ONE, m.m + ONE))
  }

  /// (sin x, cos x): Taylor series at x/32, then five angle doublings
  pure def fsincos(x: int): { s: int, c: int } = {
    val r = x / 32
    val rr = fmul(r, r)
    val c0 = range(1, 18).foldl({ s: ONE, t: ONE }, (a, k) =>
      val u = -fmul(a.t, rr) / ((2 * k - 1) * (2 * k))
      { s: a.s + u, t: u })
    val s0 = range(1, 18).foldl({ s: r, t: r }, (a, k) =>
      val u = -fmul(a.t, rr) / ((2 * k) * (2 * k + 1))
      { s: a.s + u, t: u })
    range(0, 5).foldl({ s: s0.s, c: c0.s }, (a, i) =>
      { s: 2 * fmul(a.s, a.c), c: fmul(a.c, a.c) - fmul(a.s, a.s) })
  }
  pure def fsin(x: int): int = fsincos(x).s
  pure def fcos(x: int): int = fsincos(x).c
  pure def ftan(x: int): int = { val p = fsincos(x) fdiv(p.s, p.c) }

  /// atan x: three halvings of the angle, then the series
  pure def fatan(x: int): int = {
    val r = range(0, 3).foldl(x, (y, i) => fdiv(y, ONE + fsqrt(ONE + fmul(y, y))))
    val rr = fmul(r, r)
    val t = range(0, 36).foldl({ s: 0, p: r }, (a, k) =>
      { s: a.s + a.p / (2 * k + 1), p: -fmul(a.p, rr) })
    8 * t.s
  }
  pure val PI: int = 4 * fatan(ONE)
  pure def fasin(x: int): int = fatan(fdiv(x, fsqrt(ONE - fmul(x, x))))
  pure def facos(x: int): int = PI / 2 - fasin(x)

  /// x^n for an integer n (x # 0 when n < 0)
  pure def fpowi(x: int, n: int): int = {
    val p = range(0, babs(n)).foldl(ONE, (a, i) => fmul(a, x))
    if (n < 0) fdiv(ONE, p) else p
  }
  /// x^y: repeated multiplication for integer exponents, exp(y ln x) otherwise
  pure def fpow(x: int, y: int): int =
    if (isInt(y) and babs(y) <= fint(64)) fpowi(x, y / ONE)
    else if (x == 0) 0
    else fexp(fmul(y, fln(x)))

  // ---- facts the definitions above must satisfy (checked by `quint test`) ----
  pure def close(a: int, b: int, bits: int): bool = babs(a - b) <= (2^(128 - bits)) * (1 + (babs(a) + babs(b)) / ONE)
  pure val GRID: List[int] = range(-40, 41)
  run trigTest = assert(GRID.foldl(true, (ok, k) =>
    val x = frat(k, 4)
    val p = fsincos(x)
    ok and close(fmul(p.s, p.s) + fmul(p.c, p.c), ONE, 100)
       and close(fsin(x + PI / 2), p.c, 100)
       and close(fatan(frat(k, 3)) + (if (k == 0) PI / 2 else fatan(frat(3, if (k == 0) 1 else k))), if (k < 0) -PI / 2 else PI / 2, 100)))
  run expLnTest = assert(range(1, 60).foldl(true, (ok, k) =>
    ok and close(fexp(fln(frat(k, 7))), frat(k, 7), 100)
       and close(fln(frat(k, 7)) + fln(frat(7, k)), 0, 100)
       and close(fpow(frat(k, 7), frat(1, 2)), fsqrt(frat(k, 7)), 90)
       and close(fmul(fpow(frat(k, 7), frat(5, 3)), fpow(frat(k, 7), frat(1, 3))), fpowi(frat(k, 7), 2), 90)))
  run inverseTrigTest = assert(range(-15, 16).foldl(true, (ok, k) =>
    ok and close(fsin(fasin(frat(k, 16))), frat(k, 16), 100)
       and close(fcos(facos(frat(k, 16))), frat(k, 16), 100)))
  // reference digits: pi, ln 2, e (first 30 decimals, rounded)
  run constantsTest = all {
    assert(close(PI, 3141592653589793238462643383280 * ONE / 10^30, 96)),
    assert(close(LN2, 693147180559945309417232121458 * ONE / 10^30, 96)),
    assert(close(fexp(ONE), 2718281828459045235360287471353 * ONE / 10^30, 96)),
  }

  // ---------------- pseudo-random choices (one nondeterministic seed per step) ----------------
  /// multiplication, then the middle of two squares; the simulator's own draws overlap between runs, so they are not used directly
  pure def mix(a: int, b: int, k: int): int =
    val h = ((a + k * 2654435761) * 6364136223846793005 + b * 2862933555777941757 + 1442695040888963407) % 2^64
    val g = (h * h / 2^32 + k) % 2^64
    (g * g / 2^32 + h) % 2^62
  pure def rnd(r: int, k: int, m: int): int = (mix(r, 0, k) / 2^8) % m
}
