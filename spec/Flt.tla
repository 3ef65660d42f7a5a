-------------------------------- MODULE Flt ---------------------------------
(* Floating-point numbers for TLC: <<m, e>> stands for m * 2^e with 2^14 <= |m| < 2^15, zero is <<0, 0>>.          *)
(* Operations truncate; one operation is off by less than one part in 2^13.                                         *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
FZero == <<0, 0>>
FAbsI(x) == IF x < 0 THEN 0 - x ELSE x
RECURSIVE FNormPos(_, _)
FNormPos(m, e) == IF m >= 8388608 THEN FNormPos(m \div 256, e + 8) ELSE IF m >= 32768 THEN FNormPos(m \div 2, e + 1)
                  ELSE IF m < 64 THEN FNormPos(m * 256, e - 8) ELSE IF m < 16384 THEN FNormPos(m * 2, e - 1) ELSE <<m, e>>
FNorm(m, e) == IF m = 0 THEN FZero ELSE IF m > 0 THEN FNormPos(m, e) ELSE LET r == FNormPos(0 - m, e) IN <<0 - r[1], r[2]>>
FInt(i) == FNorm(i, 0)
\* i units of 2^-k
FFix(i, k) == FNorm(i, 0 - k)
FNeg(a) == <<0 - a[1], a[2]>>
FMul(a, b) == FNorm(a[1] * b[1], a[2] + b[2])
FAdd(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a ELSE
              LET hi == IF a[2] >= b[2] THEN a ELSE b lo == IF a[2] >= b[2] THEN b ELSE a d == hi[2] - lo[2]
              IN IF d > 15 THEN hi ELSE FNorm(hi[1] * (2^d) + lo[1], lo[2])
FSub(a, b) == FAdd(a, FNeg(b))
FDivI(a, b) == LET s == IF (a[1] < 0) = (b[1] < 0) THEN 1 ELSE 0 - 1 IN s * ((FAbsI(a[1]) * 32768) \div FAbsI(b[1]))
FDiv(a, b) == FNorm(FDivI(a, b), a[2] - b[2] - 15)
RECURSIVE FRootI(_, _, _)
FRootI(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET mid == (lo + hi) \div 2 IN IF mid * mid <= n THEN FRootI(n, mid, hi) ELSE FRootI(n, lo, mid)
\* largest integer whose square is at most n
ISqrt(n) == FRootI(n, 0, 46340)
FSqrt(a) == IF a[1] = 0 THEN FZero ELSE LET k == IF a[2] % 2 = 0 THEN 14 ELSE 15 IN FNorm(ISqrt(a[1] * (2^k)), (a[2] - k) \div 2)
FLe(a, b) == FSub(a, b)[1] <= 0
FMag(a) == <<FAbsI(a[1]), a[2]>>
\* the integer nearest below |a| * 2^k, signed; at most 2^28
FToFix(a, k) == LET s == a[2] + k m == FAbsI(a[1]) v == IF a[1] = 0 THEN 0 ELSE IF s > 13 THEN 268435456 ELSE IF s >= 0 THEN m * (2^s) ELSE IF s < 0 - 15 THEN 0 ELSE m \div (2^(0 - s)) IN IF a[1] < 0 THEN 0 - v ELSE v
FSum(q) == FoldLeft(LAMBDA a, x : FAdd(a, x), FZero, q)
FSumSq(q) == FoldLeft(LAMBDA a, x : FAdd(a, FMul(x, x)), FZero, q)
=============================================================================
