-------------------------------- MODULE Search --------------------------------
(* The search phase of a test run: cases are generated one after another until *)
(* the run has enough successes, fails, or gives up (properties C01, C02).     *)
EXTENDS Naturals, Integers, Sequences

CONSTANTS Params          \* set of records [ms, sz, ratio] explored by the model

VARIABLES
  par,      \* [ms |-> max_success, sz |-> max_size, ratio |-> max_discard_ratio]
  phase,    \* "search" | "running" (case generated, outcome unknown) | "ok" | "failed" | "gaveup"
  nS, nD,   \* successes and discards so far
  recent,   \* discards since the last success
  size,     \* size of the case generated last
  hist      \* sizes of the cases that succeeded, in order (model checking only)

svars == <<par, phase, nS, nD, recent, size, hist>>

-------------------------------------------------------------------------------
(* floor(a * b / c) for 0 <= a, b and 0 < c without leaving 32-bit integers,   *)
(* provided the result fits: binary long multiplication with a running         *)
(* quotient q and remainder r < c.                                             *)
RECURSIVE MulDivAcc(_, _, _)
MulDivAcc(a, b, c) ==            \* returns <<q, r>> with a*b = q*c + r
  IF a = 0 THEN <<0, 0>>
  ELSE LET h  == MulDivAcc(a \div 2, b, c)
           r2 == IF h[2] >= c - h[2] THEN <<2 * h[1] + 1, h[2] - (c - h[2])>>
                                     ELSE <<2 * h[1], 2 * h[2]>>
           bq == b \div c
           br == b % c
       IN IF a % 2 = 0 THEN r2
          ELSE IF r2[2] >= c - br THEN <<r2[1] + bq + 1, r2[2] - (c - br)>>
                                  ELSE <<r2[1] + bq, r2[2] + br>>
MulDiv(a, b, c) == MulDivAcc(a, b, c)[1]

(* The size of the case tried after i successes: complete rounds 0..sz, then   *)
(* the rest spread evenly over 0..sz, both ends included.                      *)
BaseSize(p, i) ==
  LET regular == IF p.sz >= p.ms THEN 0 ELSE (p.ms \div (p.sz + 1)) * (p.sz + 1)
      rest    == p.ms - regular
      pos     == i - regular
  IN IF i < regular THEN i % (p.sz + 1)
     ELSE IF rest = 1 THEN 0
     ELSE MulDiv(pos, p.sz, rest - 1)

IntMax == 2147483647
SizeFor(p, i, rec) ==
  LET b == BaseSize(p, i)
      g == rec \div 10
  IN IF b > IntMax - g THEN IntMax ELSE b + g

(* nD > ratio * ms, without computing the product *)
TooMany(p, d) ==
  IF p.ratio = 0 \/ p.ms = 0 THEN d > 0
  ELSE d > 0 /\ (d - 1) \div p.ms >= p.ratio

-------------------------------------------------------------------------------
StartWith(p) ==
  /\ par = p /\ phase = "search" /\ nS = 0 /\ nD = 0 /\ recent = 0
  /\ size = 0 /\ hist = <<>>

Init == \E p \in Params : StartWith(p)

(* a case is generated: only while successes are missing and nothing stopped us *)
Generate ==
  /\ phase = "search" /\ nS < par.ms
  /\ phase' = "running"
  /\ size' = SizeFor(par, nS, recent)
  /\ UNCHANGED <<par, nS, nD, recent, hist>>

CaseSuccess ==
  /\ phase = "running"
  /\ phase' = "search"
  /\ nS' = nS + 1 /\ recent' = 0
  /\ UNCHANGED <<par, nD, size>>

CaseFailure ==
  /\ phase = "running"
  /\ phase' = "failed"
  /\ UNCHANGED <<par, nS, nD, recent, size>>

CaseDiscard ==
  /\ phase = "running"
  /\ nD' = nD + 1 /\ recent' = recent + 1
  /\ phase' = IF TooMany(par, nD + 1) THEN "gaveup" ELSE "search"
  /\ UNCHANGED <<par, nS, size>>

Finish ==
  /\ phase = "search" /\ nS >= par.ms
  /\ phase' = "ok"
  /\ UNCHANGED <<par, nS, nD, recent, size, hist>>

Stopped == phase \in {"ok", "failed", "gaveup"}

Next ==
  \/ Generate
  \/ (CaseSuccess /\ hist' = Append(hist, size))
  \/ (CaseFailure /\ UNCHANGED hist)
  \/ (CaseDiscard /\ UNCHANGED hist)
  \/ Finish
  \/ (Stopped /\ UNCHANGED svars)

Fairness == WF_svars(Next)
Spec == Init /\ [][Next]_svars /\ Fairness

-------------------------------------------------------------------------------
(* Properties *)
TypeOK ==
  /\ phase \in {"search", "running", "ok", "failed", "gaveup"}
  /\ nS \in 0..par.ms /\ nD \in Nat /\ recent \in 0..nD

(* success is reported exactly when max_success cases have succeeded *)
SuccessExact == (phase = "ok") => nS = par.ms
NoOverrun    == nS = par.ms => phase \in {"search", "ok"}
(* giving up: on the first discard beyond the limit, not before, not after *)
DiscardLimit == (nD > par.ratio * par.ms) <=> (phase = "gaveup")
(* sizes stay in range and only grow by recent discards *)
SizeInRange  == size >= 0 /\ size <= par.sz + nD \div 10
BaseInRange  == phase = "running" => size - (recent \div 10) \in 0..par.sz
(* in a run without discards, the largest size is really used, and sizes of a  *)
(* round never decrease                                                        *)
MaxReached   == (phase = "ok" /\ nD = 0 /\ par.ms >= 2) =>
                  \E k \in 1..Len(hist) : hist[k] = par.sz
Monotone     == nD = 0 => \A k \in 1..(Len(hist) - 1) :
                  hist[k] <= hist[k + 1] \/ k % (par.sz + 1) = 0
StartsAtZero == (nD = 0 /\ hist # <<>>) => hist[1] = 0
(* even spread: neighbouring sizes in the last, partial round differ by the    *)
(* rounded down or rounded up step                                             *)
Even == (phase = "ok" /\ nD = 0) =>
          LET regular == (par.ms \div (par.sz + 1)) * (par.sz + 1)
              rest == par.ms - regular
          IN rest >= 2 => \A k \in (regular + 1)..(par.ms - 1) :
               hist[k + 1] - hist[k] \in {par.sz \div (rest - 1), par.sz \div (rest - 1) + 1}
(* the run always ends *)
Terminates == <>Stopped
===============================================================================
