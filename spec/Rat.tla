-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational numbers.                                                 *)
(*                                                                         *)
(* A rational is written as the string "p" or "p/q" in lowest terms.       *)
(* Reading is more liberal: a TLA+ integer, any "p/q", and any decimal     *)
(* ("-0.25", "1.5e-07", what Python's repr(float) prints) denote           *)
(* rationals too, so observations are compared exactly, never rounded.     *)
(*                                                                         *)
(* The arithmetic is implemented by java/RatOverrides.java (BigInteger),   *)
(* because TLC's integers have 32 bits.  The defining equations below are  *)
(* overridden; if the class is not loaded every operation is an error, so  *)
(* a missing override can never pass silently.  RatCheck.tla checks the    *)
(* override against TLA+'s own integer arithmetic and the field axioms.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL NotLoaded == Assert(FALSE, "module Rat: RatOverrides is not on the classpath")

RAdd(a, b) == NotLoaded
RSub(a, b) == NotLoaded
RMul(a, b) == NotLoaded
RDiv(a, b) == NotLoaded
RNeg(a)    == NotLoaded
RAbs(a)    == NotLoaded
RInt(i)    == NotLoaded      \* the rational of an integer
RNorm(s)   == NotLoaded      \* lowest terms
RLe(a, b)  == NotLoaded
RLt(a, b)  == NotLoaded
REq(a, b)  == NotLoaded
RSign(a)   == NotLoaded      \* -1, 0, 1 as an integer
RIsNum(x)  == NotLoaded      \* FALSE for "nan", "inf", a string that is no number
RIsInt(a)  == NotLoaded
RToInt(a)  == NotLoaded
RShow(a)   == NotLoaded      \* decimal, for messages

(* Sums and products over sequences, bilinear forms u^T M v               *)
RSum(s)       == NotLoaded
RProd(s)      == NotLoaded
RDot(s, t)    == NotLoaded
RQuad(u, M, v) == NotLoaded

RPow(a, n)    == NotLoaded   \* n an integer; "undef" for a negative power of zero, "big" beyond 16000 bits
RRoot(a)      == NotLoaded   \* square root, "undef" when it is not rational

(* |obs - exp| <= tol, and obs is a number                                 *)
RNear(obs, exp, tol) == NotLoaded

-----------------------------------------------------------------------------
(* The same operations by their definitions (used by RatCheck).            *)
RECURSIVE DefSum(_)
DefSum(s) == IF s = <<>> THEN "0" ELSE RAdd(Head(s), DefSum(Tail(s)))
RECURSIVE DefProd(_)
DefProd(s) == IF s = <<>> THEN "1" ELSE RMul(Head(s), DefProd(Tail(s)))
DefDot(s, t) == DefSum([i \in 1..Len(s) |-> RMul(s[i], t[i])])
DefQuad(u, M, v) == DefSum([i \in 1..Len(u) |-> RMul(u[i], DefDot(M[i], v))])

RECURSIVE DefPow(_, _)
DefPow(a, n) == IF n = 0 THEN "1" ELSE IF n > 0 THEN RMul(a, DefPow(a, n - 1)) ELSE RDiv(DefPow(a, n + 1), a)

RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RSq(a)     == RMul(a, a)

RECURSIVE RMaxSeq(_)
RMaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], RMaxSeq(Tail(s)))
=============================================================================
