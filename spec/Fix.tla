--------------------------------- MODULE Fix ---------------------------------
(* Real numbers between -1000 and 1000 as multiples of 1/2^20, within the 32  *)
(* bits TLC computes with.                                                    *)
EXTENDS Ord, Tables
One == 1048576
Near(a, b, tol) == Abs(a - b) <= tol
(* the product of a (up to 1000) and c (up to 2), rounded down *)
MulP(a, c) == LET ah == a \div 1024
                  al == a % 1024
                  ch == c \div 1024
                  cl == c % 1024 IN ah * ch + (ah * cl + al * ch) \div 1024 + (al * cl) \div One
Mul(a, c) == IF c < 0 THEN (IF a < 0 THEN MulP(-a, -c) ELSE -MulP(a, -c)) ELSE IF a < 0 THEN -MulP(-a, c) ELSE MulP(a, c)
(* one step of an exponential approach from v to t with coefficient c *)
Toward(t, v, c) == t + Mul(v - t, c)
RECURSIVE Bits(_, _, _, _)
Bits(q, r, b, k) == IF k = 0 THEN q ELSE LET d == (2 * r) \div b IN Bits(2 * q + d, 2 * r - d * b, b, k - 1)
(* a/c for 0 <= a < 1024 c, c > 0 *)
Div(a, c) == Bits(a \div c, a % c, c, 20)
(* the sine at x/2^20 of a cycle *)
Sine(x) == LET y == x % One
               i == y \div 1024 IN SinT[i] + ((SinT[i + 1] - SinT[i]) * (y % 1024)) \div 1024
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
(* square root of n/2^30, for n below 2^30 *)
Sqrt30(n) == LET r == Root(n, 0, 32768) IN r * 32 + ((n - r * r) * 32) \div (2 * r + 1)
(* Decibels in 1/65536; an octave is 6.02 of them. *)
Octave == 394566
RECURSIVE Norm(_, _)
(* x = y * 2^k with y in [One, 2 One) *)
Norm(x, k) == IF x >= 2 * One THEN Norm(x \div 2, k + 1) ELSE IF x < One THEN Norm(x * 2, k - 1) ELSE <<x, k>>
(* x/2^b in decibels, x > 0 *)
Db(x, b) == LET n == Norm(x, 0)
                i == (n[1] - One) \div 4096
                f == (n[1] - One) % 4096 IN DbT[i] + ((DbT[i + 1] - DbT[i]) * f) \div 4096 + (n[2] + 20 - b) * Octave
RECURSIVE Shift(_, _)
Shift(x, k) == IF k = 0 \/ x = 0 THEN x ELSE IF k > 0 THEN Shift(x * 2, k - 1) ELSE Shift(x \div 2, k + 1)
(* d decibels as a factor in 1/2^b *)
Amp(d, b) == LET k == d \div Octave
                 r == (d % Octave) * 256
                 i == r \div Octave
                 f == (r % Octave) \div 386 IN Shift(AmpT[i] + ((AmpT[i + 1] - AmpT[i]) * f) \div 1022, k + b - 20)
=============================================================================
