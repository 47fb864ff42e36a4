-------------------------------- MODULE Forms --------------------------------
(* The forms in which a function can be declared: what dimensions the object  *)
(* has for given extra arguments, what it returns, what it refuses.           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Args, MaxLen, MaxCalls
VARIABLES form, p, q, hist
vars == <<form, p, q, hist>>

FormNames == {"literal", "destructured", "expr", "attrs", "liar", "destructured_expr", "empty_args", "vec_arg", "by_path"}
N(f, a, b) == CASE f = "literal" -> 3 [] f = "destructured" -> 2 [] f = "expr" -> a * b + 1 [] f = "attrs" -> 2
                [] f = "liar" -> 2 [] f = "destructured_expr" -> 3 [] f = "empty_args" -> 0 [] f = "vec_arg" -> a
                [] f = "by_path" -> a + 1
M(f, a, b) == CASE f = "literal" -> 2 [] f = "destructured" -> 2 [] f = "expr" -> a + 2 * b [] f = "attrs" -> 3
                [] f = "liar" -> a [] f = "destructured_expr" -> a + b [] f = "empty_args" -> a [] f = "vec_arg" -> b
                [] f = "by_path" -> b
\* length of what the body returns
Body(f, a, b) == IF f = "liar" THEN b ELSE M(f, a, b)
K(f, a, b) == a + 4 * b

RECURSIVE Weighted(_, _)
Weighted(x, j) == IF j > Len(x) THEN 0 ELSE j * x[j] + Weighted(x, j + 1)
Value(f, a, b, x) == [i \in 1..M(f, a, b) |-> 3 * Weighted(x, 1) + 10 * K(f, a, b) + i]
Input(n, c) == [j \in 1..n |-> j + c]

Init == form \in FormNames /\ p \in Args /\ q \in Args /\ hist = <<>>
Accepted(len) == len = N(form, p, q) /\ Body(form, p, q) = M(form, p, q)
Call(len) ==
  /\ Len(hist) < MaxCalls
  /\ hist' = Append(hist, [len |-> len, x |-> Input(len, Len(hist)), ok |-> Accepted(len),
                           y |-> IF Accepted(len) THEN Value(form, p, q, Input(len, Len(hist))) ELSE <<>>])
  /\ UNCHANGED <<form, p, q>>
Next == \E len \in 0..MaxLen : Call(len)
Spec == Init /\ [][Next]_vars
OnlyRightLengths == \A c \in 1..Len(hist) : hist[c].ok => Len(hist[c].y) = M(form, p, q) /\ Len(hist[c].x) = N(form, p, q)
Emit == Len(hist') = MaxCalls => PrintT("@@" \o ToJson([form |-> form, p |-> p, q |-> q, n |-> N(form, p, q), m |-> M(form, p, q), calls |-> hist']))
=============================================================================
