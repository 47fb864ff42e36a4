// -*- mode: Bluespec; -*-
/// Chains of functions: links are built operation by operation, next to the
/// recording of the composed function.  Brackets group links into nested chains.
module chain {
  import fx.* from "./fx"
  import ad.* from "./ad"

  /// "exact": dyadic arithmetic, kinks are hit; "kinks": small integers, many ties; "mixed": smooth functions, no ties
  const PROFILE: str
  /// operations per link, at most
  const LEN: int
  /// number of links, at most
  const LINKS: int

  type Out = { mult: int, h: List[List[int]], g: List[int], y: List[int], dy: List[int], signs: List[int] }
  type St = { x: List[int], dx: List[int],
              comp: Recd,                // the composed function
              links: List[Recd],         // finished links
              toks: List[str],           // "(" ")" and "f", in order
              depth: int,                // open groups
              cur: Recd, map: List[int], // link under construction, its ids in the composed function
              outs: List[int],           // current outputs in the composed function
              steps: int, act: str, res: Out }
  var C: St
  var seed: int

  pure val KINKS: bool = PROFILE == "kinks"
  pure val EXACT: bool = PROFILE == "exact" or KINKS
  pure val res0: Out = { mult: 0, h: [], g: [], y: [], dy: [], signs: [] }

  pure def num(r: int, k: int): int =
    if (KINKS) fint(rnd(r, 7 * k + 3, 3) - 1)
    else if (EXACT) { if (rnd(r, 7 * k + 1, 3) == 0) frat(rnd(r, 7 * k + 2, 9) - 4, 2) else fint(rnd(r, 7 * k + 3, 7) - 3) }
    else frat(rnd(r, 7 * k + 4, 129) - 64, 32)
  pure def dir(r: int, k: int): int =
    if (KINKS) fint(rnd(r, 5 * k + 1001, 3) - 1)
    else if (rnd(r, 5 * k + 1001, 4) == 0) 0 else frat(rnd(r, 5 * k + 1002, 17) - 8, if (EXACT) 2 else 8)
  pure def okNum(x: int): bool = (not(EXACT) or isDyadic(x, 12)) and babs(x) <= fint(2^9)

  pure def freshLink(n: int, xs: List[int]): Recd =
    { indeps: range(0, n).foldl([], (l, i) => l.append(i)), deps: [], ops: [], vals: xs }

  pure def add(r: Recd, code: str, a: int, b: int, v: int): Recd = {
    val vid = r.vals.length()
    { ...r, vals: r.vals.append(v), ops: r.ops.append({ code: code, vid: vid, a: a, b: b }) }
  }
  pure def idle(s: St): St = { ...s, steps: s.steps + 1, act: "skip", res: res0 }

  /// one more operation of the current link
  pure def addOp(s: St, r: int): St = {
    val nv = s.cur.vals.length()
    // every captured constant is used once
    val ids = range(0, nv).foldl([], (l, i) => if (isConst(s.cur, i)) l else l.append(i))
    val ni = ids.length()
    val codes = if (EXACT) ["Add", "Sub", "Mul", "Abs", "Abs", "Add"] else ["Add", "Sub", "Mul", "Abs", "Sin", "Cos", "Exp", "Atan", "Div"]
    if (s.cur.ops.length() >= LEN or ni == 0) idle(s)
    else {
      val o = rnd(r, 1, codes.length())
      range(0, 4).foldl(idle(s), (acc, t) =>
        if (acc.act != "skip") acc
        else
          val code = codes[(o + t) % codes.length()]
          val a0 = if (rnd(r, 2, 2) == 0) ids[ni - 1] else ids[rnd(r, 3, ni)]
          val lit = not(isUnary(code)) and rnd(r, 4, 3) == 0
          val c = if (code == "Div") fint(2) else num(r, 5)
          // the literal operand comes first or second
          val flip = rnd(r, 6, 2) == 0 and code != "Div"
          val curC = if (lit) add(s.cur, "Const", -1, -1, c) else s.cur
          val compC = if (lit) add(s.comp, "Const", -1, -1, c) else s.comp
          val mapC = if (lit) s.map.append(s.comp.vals.length()) else s.map
          val b0 = if (isUnary(code)) -1 else if (lit) nv else ids[rnd(r, 7, ni)]
          val a = if (lit and flip) b0 else a0
          val b = if (lit and flip) a0 else b0
          val op = { code: code, vid: curC.vals.length(), a: a, b: b }
          if (not(opDom(curC, op, curC.vals))) acc
          else
            val v = opVal(op, curC.vals)
            val cur2 = add(curC, code, a, b, v)
            val comp2 = add(compC, code, mapC[a], if (b < 0) -1 else mapC[b], v)
            val dv = fsweep(comp2, comp2.vals, s.dx)
            val z = comp2.vals[mapC[a]] + dv[mapC[a]]
            if (not(okNum(v)) or not(okNum(dv[dv.length() - 1])) or
                (code == "Abs" and not(EXACT) and babs(z) < ONE / 2^8)) acc
            else { ...s, cur: cur2, comp: comp2, map: mapC.append(compC.vals.length()), steps: s.steps + 1, act: "op", res: res0 })
    }
  }

  /// the current link ends: pick its outputs; the next link starts there
  pure def endLink(s: St, r: int): St = {
    val cands = range(0, s.cur.vals.length()).foldl([], (l, i) => if (isConst(s.cur, i)) l else l.append(i))
    val m = if (rnd(r, 11, 50) == 0) 0 else 1 + rnd(r, 12, 3)
    if (s.links.length() >= LINKS or (m > 0 and cands.length() == 0)) idle(s)
    else {
      val last = s.cur.vals.length() - 1
      val deps = range(0, m).foldl([], (l, k) => l.append(
        if (k == 0 and rnd(r, 13, 4) != 0 and not(isConst(s.cur, last))) last else cands[rnd(r, 14 + k, cands.length())]))
      val link = { ...s.cur, deps: deps }
      val outs = pick(s.map, deps)
      { ...s, links: s.links.append(link), toks: s.toks.append("f"), comp: { ...s.comp, deps: outs },
              cur: freshLink(m, pick(s.cur.vals, deps)), map: outs, outs: outs, steps: s.steps + 1, act: "link", res: res0 }
    }
  }
  pure def fresh(s: St): bool = s.cur.ops.length() == 0
  pure def lastTok(s: St): str = if (s.toks.length() == 0) "" else s.toks[s.toks.length() - 1]
  pure def openGroup(s: St): St =
    if (not(fresh(s)) or s.depth >= 3) idle(s)
    else { ...s, toks: s.toks.append("("), depth: s.depth + 1, steps: s.steps + 1, act: "open", res: res0 }
  pure def closeGroup(s: St): St =
    if (not(fresh(s)) or s.depth == 0 or lastTok(s) == "(") idle(s)
    else { ...s, toks: s.toks.append(")"), depth: s.depth - 1, steps: s.steps + 1, act: "close", res: res0 }

  /// what differentiating the chain built so far has to return
  pure def big(m: List[List[int]]): bool = m.foldl(false, (b, row) => b or maxAbs(row) > fint(2^14))
  pure def observe(s: St): St =
    if (s.links.length() == 0 or lastTok(s) == "(" or not(fresh(s))) idle(s)
    else {
      val r = s.comp
      val gj = genJac(r, r.vals, s.dx, [])
      val p = activeSigns(r, r.vals, s.dx, [])
      if (big(gj.h) or big([gj.g])) idle(s)
      else { ...s, steps: s.steps + 1, act: "gj",
             res: { mult: gj.mult, h: gj.h, g: gj.g, y: outputs(r, r.vals), dy: forward(r, r.vals, s.dx), signs: p.sigma } }
    }

  action init = {
    nondet q = 0.to(2^62).oneOf()
    val r = mix(q, 0, 5)
    val n = if (rnd(r, 90, 50) == 0) 0 else 1 + rnd(r, 91, 3)
    val x = range(0, n).foldl([], (l, k) => l.append(num(r, k)))
    val dx = range(0, n).foldl([], (l, k) => l.append(dir(r, k)))
    all { seed' = mix(q, 0, 7), C' = { x: x, dx: dx, comp: freshLink(n, x), links: [], toks: [], depth: 0, cur: freshLink(n, x),
           map: range(0, n).foldl([], (l, i) => l.append(i)), outs: range(0, n).foldl([], (l, i) => l.append(i)),
           steps: 0, act: "start", res: res0 } }
  }
  action step = {
    nondet q = 0.to(2^62).oneOf()
    val r = mix(seed, q, 1)
    val kind = rnd(r, 2001, 100)
    all { seed' = mix(seed, q, 2), C' = if (fresh(C) and C.act == "link" and kind % 2 == 0) observe(C)
         else if (fresh(C) and Set("gj", "link", "close", "start").contains(C.act) and kind < 25)
           { if (kind < 15) openGroup(C) else if (C.depth > 0) closeGroup(C) else addOp(C, r) }
         else if (fresh(C) and kind < 92) addOp(C, r)
         else if (kind < 64) addOp(C, r)
         else if (kind < 96) endLink(C, r)
         else observe(C) }
  }

  // ---------------- properties of the specification itself ----------------
  pure def near(a: int, b: int): bool = babs(a - b) <= ONE / 2^44 * (1 + (babs(a) + babs(b)) / ONE)
  pure def nearV(a: List[int], b: List[int]): bool =
    a.length() == b.length() and range(0, a.length()).foldl(true, (ok, i) => ok and near(a[i], b[i]))
  pure def nearM(a: List[List[int]], b: List[List[int]]): bool =
    a.length() == b.length() and range(0, a.length()).foldl(true, (ok, i) => ok and nearV(a[i], b[i]))

  val wellFormedAll = wellFormed(C.comp) and C.links.foldl(true, (ok, l) => ok and wellFormed(l)) and selfConsistent(C.comp, C.comp.vals)
  /// evaluating the links one after another gives the composed function
  val composes =
    val q = C.links.foldl({ x: C.x, dx: C.dx, ok: true }, (s, l) =>
      val w = replay(l, l.vals, s.x)
      { x: outputs(l, w.vals), dx: forward(l, w.vals, s.dx), ok: s.ok and w.ok })
    C.links.length() > 0 implies and {
      q.ok, nearV(q.x, outputs(C.comp, C.comp.vals)), nearV(q.dx, forward(C.comp, C.comp.vals, C.dx)) }
  /// chain rule: the pieces of the links, composed from the back, are the piece of the composed function
  val chainRule = C.act == "gj" implies {
    val xs = C.links.foldl([C.dx], (l, k) => l.append(forward(k, k.vals, l[l.length() - 1])))
    val n = C.links.length()
    val m = C.links[n - 1].deps.length()
    val id: GenJac = { h: range(0, m).foldl([], (l, i) => l.append(unit(m, i))), g: zeros(m), mult: 0 }
    val t = range(0, n).foldl(id, (acc, k) =>
      val link = C.links[n - 1 - k]
      compose(acc, link.deps.length(), link.indeps.length(), genJac(link, link.vals, xs[n - 1 - k], [])))
    and { t.mult == C.res.mult, nearM(t.h, C.res.h), nearV(t.g, C.res.g) }
  }
  /// H dx + g is the increment
  val pieceIsActive = C.act == "gj" implies
    nearV(vadd(matVec(C.res.h, C.dx), C.res.g), C.res.dy)

  val wLong = C.act == "gj" and C.links.length() >= 5
  val wNestedChain = C.act == "gj" and C.toks.select(t => t == "(").length() >= 2
  val wTies = C.act == "gj" and C.res.mult >= 2
  val wOneLink = C.act == "gj" and C.links.length() == 1
  val wEmptyLink = C.act == "gj" and C.links.foldl(false, (b, l) => b or l.ops.length() == 0)
  val wZeroWide = C.act == "gj" and C.links.foldl(false, (b, l) => b or l.deps.length() == 0 or l.indeps.length() == 0)
}

module exact { import chain(PROFILE = "exact", LEN = 6, LINKS = 5).* from "./chain" }
module kinks { import chain(PROFILE = "kinks", LEN = 5, LINKS = 9).* from "./chain" }
module mixed { import chain(PROFILE = "mixed", LEN = 6, LINKS = 5).* from "./chain" }
module long { import chain(PROFILE = "kinks", LEN = 2, LINKS = 24).* from "./chain" }
