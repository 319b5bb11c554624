// Checked arithmetic (C31) and checked casts (C30), over unbounded integers.
//
// A type is either an integer type [lo, hi] or a binary floating-point type with p bits of
// precision, least exponent emin of a last bit and largest exponent emax (all finite values are
// below 2^emax). A number is m * 2^e; integers have e = 0. Every step makes one call with
// operands around the interesting limits, and records the outcome that the call must have.
module Num {
  type Ty = { name: str, flt: bool, lo: int, hi: int, p: int, emin: int, emax: int }
  type Num = { m: int, e: int }
  type Outcome = Value(Num)
    | Edge(Num)  // beyond the finite values, but rounded to the largest one: this value, or an error
    | ERange | EDom

  pure def intTy(n: str, lo: int, hi: int): Ty = { name: n, flt: false, lo: lo, hi: hi, p: 0, emin: 0, emax: 0 }
  pure def fltTy(n: str, p: int, emin: int, emax: int): Ty =
    { name: n, flt: true, lo: 0, hi: 0, p: p, emin: emin, emax: emax }

  pure val intTypes: List[Ty] = [
    intTy("_Bool", 0, 1),
    intTy("char", -2^7, 2^7 - 1), intTy("schar", -2^7, 2^7 - 1), intTy("short", -2^15, 2^15 - 1),
    intTy("int", -2^31, 2^31 - 1), intTy("long", -2^63, 2^63 - 1), intTy("llong", -2^63, 2^63 - 1),
    intTy("uchar", 0, 2^8 - 1), intTy("ushort", 0, 2^16 - 1), intTy("uint", 0, 2^32 - 1),
    intTy("ulong", 0, 2^64 - 1), intTy("ullong", 0, 2^64 - 1)
  ]
  pure val fltTypes: List[Ty] = [
    fltTy("float", 24, -149, 128), fltTy("double", 53, -1074, 1024), fltTy("ldouble", 64, -16445, 16384)
  ]
  pure val types: List[Ty] = intTypes.concat(fltTypes)

  // targets that an application defines: a range below that of the C type
  pure val appTypes: List[Ty] = [
    intTy("port", 1024, 65535), intTy("digit", 1, 9), intTy("centi", -100, 100), intTy("hour", 10, 12),
    intTy("wide", 1, 40000), intTy("size16", 16, 300), intTy("words", 0, 1000), intTy("depth", -100, -10)
  ]

  pure def abs(x: int): int = if (x < 0) -x else x
  pure def imax(a: int, b: int): int = if (a < b) b else a
  pure def imin(a: int, b: int): int = if (a < b) a else b
  pure def clamp(x: int, lo: int, hi: int): int = imax(lo, imin(x, hi))
  // quotient truncated towards zero
  pure def tdiv(a: int, b: int): int = {
    val q = abs(a) / abs(b)
    if ((a < 0) == (b < 0)) q else -q
  }
  // number of bits of m >= 0
  pure def bits(m: int): int =
    if (m == 0) 0 else
    [15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0].foldl(0, (n, k) => if (m >= 2^(n + 2^k)) n + 2^k else n) + 1

  // m * 2^e, rounded to nearest with ties to even; ERange beyond the finite values
  pure def round(t: Ty, m: int, e: int): Outcome = if (m == 0) Value({ m: 0, e: 0 }) else {
    val a = abs(m)
    val q = imax(bits(a) - t.p + e, t.emin)
    val r = if (q <= e) { m: a, e: e } else {
      val s = 2^(q - e)
      val hi = a / s
      val rem = a % s
      { m: if (2 * rem > s or (2 * rem == s and hi % 2 == 1)) hi + 1 else hi, e: q }
    }
    val n = { m: if (m < 0) -(r.m) else r.m, e: r.e }
    if (bits(r.m) + r.e > t.emax) ERange
    else if (beyond(t, { m: m, e: e })) Edge(n)
    else Value(n)
  }
  pure def fits(t: Ty, x: int): Outcome = if (x < t.lo or x > t.hi) ERange else Value({ m: x, e: 0 })
  // is |m * 2^e| beyond the largest finite value (2^p - 1) * 2^(emax - p)?
  pure def beyond(t: Ty, n: Num): bool = if (n.m == 0) false else {
    val b = imin(n.e, t.emax - t.p)
    abs(n.m) * 2^(n.e - b) > (2^t.p - 1) * 2^(t.emax - t.p - b)
  }

  pure def plus(t: Ty, a: Num, b: Num): Outcome =
    if (not(t.flt)) fits(t, a.m + b.m) else {
      val e = imin(a.e, b.e)
      round(t, a.m * 2^(a.e - e) + b.m * 2^(b.e - e), e)
    }
  pure def minus(t: Ty, a: Num, b: Num): Outcome = plus(t, a, { m: -(b.m), e: b.e })
  pure def times(t: Ty, a: Num, b: Num): Outcome =
    if (not(t.flt)) fits(t, a.m * b.m) else round(t, a.m * b.m, a.e + b.e)
  pure def over(t: Ty, a: Num, b: Num): Outcome =
    if (b.m == 0) EDom
    else if (not(t.flt)) fits(t, tdiv(a.m, b.m)) else {
      // enough digits of the quotient, and a last bit that tells if there is a remainder
      val s = 2 * t.p + 4
      val n = abs(a.m) * 2^s
      val q = n / abs(b.m)
      val x = 2 * q + (if (n % abs(b.m) == 0) 0 else 1)
      round(t, if ((a.m < 0) == (b.m < 0)) x else -x, a.e - b.e - s - 1)
    }
  pure def calc(op: str, t: Ty, a: Num, b: Num): Outcome =
    if (op == "add") plus(t, a, b) else if (op == "sub") minus(t, a, b)
    else if (op == "mul") times(t, a, b) else over(t, a, b)

  // the same value if the target has it, the nearest value of a floating-point type within its
  // range, and an error outside of the target's range
  pure def cast(t: Ty, a: Num): Outcome =
    if (not(t.flt)) fits(t, a.m)
    else if (beyond(t, a)) ERange
    else round(t, a.m, a.e)

  // the largest and smallest number, as operands
  pure def top(t: Ty): Num = if (t.flt) { m: 2^t.p - 1, e: t.emax - t.p } else { m: t.hi, e: 0 }

  // an operand: near a limit l of some type, near a power of two, near zero, or anything
  pure def intOperand(t: Ty, kind: int, l: int, k: int, d: int, r: int): Num = {
    val x = if (kind == 0) d
      else if (kind == 1) t.lo + abs(d)
      else if (kind == 2) t.hi - abs(d)
      else if (kind == 3) l + d
      else if (kind == 4) 2^(k % 64) + d
      else if (kind == 5) -(2^(k % 64)) + d
      else t.lo + r % (t.hi - t.lo + 1)
    { m: clamp(x, t.lo, t.hi), e: 0 }
  }
  pure def fltOperand(t: Ty, kind: int, k: int, d: int, r: int, neg: bool): Num = {
    val m = if (kind % 4 == 0) 2^t.p - 1 - abs(d) else if (kind % 4 == 1) 2^(t.p - 1) + abs(d)
      else if (kind % 4 == 2) 2^(t.p - 1) + r % 2^(t.p - 1) else abs(d)
    val n = t.emax - t.p - t.emin + 1
    val e = if (kind < 4) t.emax - t.p - k % 3 else if (kind < 8) t.emin + k % 3
      else if (kind < 12) k % (2 * t.p) - t.p - t.p / 2 else if (kind < 16) (t.emax - t.p) / 2 + k % 5 - 2
      else t.emin + r % n
    { m: if (neg) -m else m, e: clamp(e, t.emin, t.emax - t.p) }
  }
  // b such that a op b is near the limit l
  pure def partner(op: str, t: Ty, a: int, l: int, d: int): Num = {
    val x = if (op == "add") l - a + d else if (op == "sub") a - l + d
      else if (op == "mul") (if (a == 0) d else tdiv(l, a) + d)
      else (if (abs(d) % 2 == 0) -1 else d)
    { m: clamp(x, t.lo, t.hi), e: 0 }
  }
  pure def fltPartner(op: str, t: Ty, a: Num, d: int): Num = {
    val lim = top(t)
    if (op == "add" or op == "sub") {
      // a few half units away from the largest value
      val e = imax(t.emin, imin(a.e, lim.e) - 1)
      val s = if (a.m < 0) -1 else 1
      val x = s * (lim.m * 2^(lim.e - e) - abs(a.m) * 2^(imax(a.e, e) - e)) + d
      val y = round(t, if (op == "add") x else -x, e)
      match y { | Value(v) => v | _ => lim }
    } else if (a.m == 0) a
    else match (if (op == "mul") over(t, lim, a) else over(t, a, lim)) {
      | Value(v) => if (bits(abs(v.m + d)) > t.p) v else { m: v.m + d, e: v.e }
      | _ => lim
    }
  }

  var op: str
  var ty: str
  var dst: str
  var a: Num
  var b: Num
  var out: Outcome

  pure val none: Num = { m: 0, e: 0 }

  action init = all {
    op' = "none", ty' = "", dst' = "", a' = none, b' = none, out' = EDom,
  }

  action arithmetic = {
    nondet o = Set("add", "sub", "mul", "div").oneOf()
    nondet i = 0.to(types.length() - 1).oneOf()
    nondet kind = 0.to(6).oneOf()
    nondet kind2 = 0.to(9).oneOf()
    nondet fk = 0.to(19).oneOf()
    nondet fk2 = 0.to(24).oneOf()
    nondet k = 0.to(1000).oneOf()
    nondet k2 = 0.to(1000).oneOf()
    nondet d = (-4).to(4).oneOf()
    nondet d2 = (-4).to(4).oneOf()
    nondet r = 0.to(2^64 - 1).oneOf()
    nondet r2 = 0.to(2^64 - 1).oneOf()
    nondet neg = Set(false, true).oneOf()
    nondet neg2 = Set(false, true).oneOf()
    val t = types[i]
    val x = if (t.flt) fltOperand(t, fk, k, d, r, neg) else intOperand(t, kind, 0, k, d, r)
    val y = if (t.flt) (if (fk2 >= 20) fltPartner(o, t, x, d2) else fltOperand(t, fk2, k2, d2, r2, neg2))
      else if (kind2 >= 7) partner(o, t, x.m, if (neg2) t.lo else t.hi, d2)
      else intOperand(t, kind2, 0, k2, d2, r2)
    all { op' = o, ty' = t.name, dst' = t.name, a' = x, b' = y, out' = calc(o, t, x, y) }
  }

  // another type; floating-point types are cast to floating-point types only
  pure def target(i: int, j: int): int =
    if (i == j) target2(i, j + 1) else target2(i, j)
  pure def target2(i: int, j: int): int =
    if (i < intTypes.length()) j % types.length()
    else intTypes.length() + (i - intTypes.length() + 1 + j % (fltTypes.length() - 1)) % fltTypes.length()

  action casting = {
    nondet i = 0.to(types.length() - 1).oneOf()
    nondet j = 0.to(types.length() - 1).oneOf()
    nondet app = 0.to(3 * appTypes.length()).oneOf()
    nondet kind = 0.to(6).oneOf()
    nondet fk = 0.to(25).oneOf()
    nondet k = 0.to(1000).oneOf()
    nondet d = (-4).to(4).oneOf()
    nondet r = 0.to(2^64 - 1).oneOf()
    nondet neg = Set(false, true).oneOf()
    val t = types[i]
    val u = if (app < appTypes.length() and not(t.flt)) appTypes[app] else types[target(i, j)]
    val x = if (not(t.flt)) intOperand(t, kind, if (neg) u.lo else u.hi, k, d, r)
      else if (fk < 20 or u.emax > t.emax or u.p == 0 or u.p >= t.p) fltOperand(t, fk % 20, k, d, r, neg)
      else {
        // around the target's largest value
        val g = imin(t.p - u.p, 6)
        val m = (2^u.p - 1) * 2^g + d * (1 + k % 8)
        { m: if (neg) -m else m, e: u.emax - u.p - g }
      }
    all {
      op' = "cast", ty' = t.name, dst' = u.name, a' = x, b' = none, out' = cast(u, x),
    }
  }

  action step = any { arithmetic, casting }
  action stepArith = arithmetic
  action stepCast = casting

  // properties of the specification itself
  val known = Set("add", "sub", "mul", "div", "cast").contains(op)
  def tyOf(n: str): Ty = types.concat(appTypes).select(t => t.name == n)[0]
  val inRange = known implies match out {
    | Value(v) => val t = tyOf(dst) if (t.flt) not(beyond(t, v)) and bits(abs(v.m)) <= t.p + 1 else t.lo <= v.m and v.m <= t.hi
    | _ => true
  }
  // a result that is an operand of the type comes out unchanged
  val neutral = known and op != "cast" implies val t = tyOf(ty) and {
    (op == "add" or op == "sub") and b.m == 0 implies same(out, a),
    (op == "mul" or op == "div") and b == { m: 1, e: 0 } implies same(out, a),
    op == "sub" and a == b implies same(out, none),
  }
  def same(o: Outcome, n: Num): bool = match o {
    | Value(v) => val e = imin(v.e, n.e) v.m * 2^(v.e - e) == n.m * 2^(n.e - e)
    | _ => false
  }
  // division is the inverse of multiplication, up to truncation
  val inverse = (op == "div" and b.m != 0 and known and not(tyOf(ty).flt)) implies match out {
    | Value(v) => abs(a.m - v.m * b.m) < abs(b.m) and abs(v.m * b.m) <= abs(a.m)
    | _ => a.m == tyOf(ty).lo and b.m == -1
  }
  val edom = (out == EDom and known) iff (op == "div" and b.m == 0)
  val sane = and { inRange, neutral, inverse, edom }
}
