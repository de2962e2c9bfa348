------------------------------ MODULE Reals64 ------------------------------
(***************************************************************************)
(* Real arithmetic for the numeric parts of the specification.             *)
(*                                                                         *)
(* TLC has no real numbers.  A real is represented here by the IEEE-754    *)
(* double <<hi, lo>> (two 32-bit halves of its bit pattern); a plain TLA+  *)
(* integer is also accepted wherever a real is expected.  The operators    *)
(* below are *declared* by their mathematical meaning and *evaluated* by   *)
(* TLC through the Java module override java/Reals64.java (one line of     *)
(* IEEE arithmetic per operator: no modelling content lives in Java).      *)
(* Never compare reals with "="; use REq, RNear, RLt, RLe.                 *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LOCAL Meaning(tag) == CHOOSE x \in {tag} : TRUE

RDec(n, d)  == Meaning("the double nearest n / d, n and d integers")
RAdd(a, b)  == Meaning("a + b")
RSub(a, b)  == Meaning("a - b")
RMul(a, b)  == Meaning("a * b")
RDiv(a, b)  == Meaning("a / b (IEEE: x/0 is an infinity or NaN)")
RNeg(a)     == Meaning("-a")
RAbs(a)     == Meaning("|a|")
RMin(a, b)  == Meaning("min(a,b)")
RMax(a, b)  == Meaning("max(a,b)")
RSqrt(a)    == Meaning("square root")
RHyp(a, b)  == Meaning("sqrt(a^2 + b^2)")
RPow(a, b)  == Meaning("a^b")
RExp(a)     == Meaning("e^a")
RSinD(a)    == Meaning("sine, argument in degrees")
RCosD(a)    == Meaning("cosine, argument in degrees")
RAcosD(a)   == Meaning("arc cosine in degrees, argument clipped to [-1,1]")
RAtan2D(y,x)== Meaning("atan2 in degrees")
RAtanD(a)   == Meaning("arc tangent in degrees")
RFloor(a)   == Meaning("floor, as a TLA+ integer")
RCeil(a)    == Meaning("ceiling, as a TLA+ integer")
RLt(a, b)   == Meaning("a < b")
RLe(a, b)   == Meaning("a <= b")
REq(a, b)   == Meaning("a = b as reals (NaN = NaN, +0 = -0)")
RNear(a, b, t) == Meaning("|a-b| <= t * max(1,|a|,|b|); infinities near themselves; NaN near NaN")
RFinite(a)  == Meaning("a is neither infinite nor NaN")
RSum(s)     == Meaning("sum of a sequence of reals")
RPrefix(s)  == Meaning("the prefix sums <<0, s1, s1+s2, ...>> of a sequence of reals")
RDot(s, t)  == Meaning("sum of the products of two sequences of equal length")
RMaxDiff(s, t) == Meaning("max over i of |s[i]-t[i]| / max(1,|s[i]|,|t[i]|); +oo if lengths differ or exactly one is NaN")
RShow(a)    == Meaning("decimal rendering, for messages")

a (+) b == RAdd(a, b)
a (-) b == RSub(a, b)
a (.) b == RMul(a, b)
a (/) b == RDiv(a, b)
a \prec b   == RLt(a, b)
a \preceq b == RLe(a, b)


E(k) == Meaning("10^-k, for tolerances")
=============================================================================
