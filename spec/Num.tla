-------------------------------- MODULE Num --------------------------------
(* Exact scalars.  A scalar is a Gaussian rational <<a, b, d>> = (a + b*i)/d
   with d > 0 and gcd(a, b, d) = 1, so two scalars are equal iff they are the
   same value.  <<k, l, 0>> is an opaque value (it can be stored, copied and
   written to a file, but not computed with): the k-th (real part) and l-th
   (imaginary part) entry of the palette of extreme floating point values.

   TLC's integers are 32-bit and an overflow stops TLC, so every action of
   the state machine bounds the magnitude of its operands (see Mag).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(n) == IF n < 0 THEN -n ELSE n
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

(* Normal form of (a + b i)/d, d # 0. *)
Q(a, b, d) ==
    IF d = 1 THEN <<a, b, 1>>
    ELSE LET g == Gcd(Gcd(Abs(d), Abs(a)), Abs(b))
             s == IF d < 0 THEN -g ELSE g
         IN  <<a \div s, b \div s, d \div s>>

Int2Q(n) == <<n, 0, 1>>
Zero == <<0, 0, 1>>
One  == <<1, 0, 1>>
ImU  == <<0, 1, 1>>

IsOpaque(x) == x[3] = 0
IsReal(x) == x[2] = 0
IsInt(x)  == x[2] = 0 /\ x[3] = 1
RePart(x) == Q(x[1], 0, x[3])
ImPart(x) == Q(x[2], 0, x[3])

Neg(x)  == <<-x[1], -x[2], x[3]>>
Conj(x) == <<x[1], -x[2], x[3]>>

Add(x, y) ==
    IF x[3] = y[3] THEN Q(x[1] + y[1], x[2] + y[2], x[3])
    ELSE LET g == Gcd(x[3], y[3])
             p == y[3] \div g
             q == x[3] \div g
         IN  Q(x[1] * p + y[1] * q, x[2] * p + y[2] * q, x[3] * p)
Sub(x, y) == Add(x, Neg(y))

Mul(x, y) ==
    IF x[2] = 0 /\ y[2] = 0
    THEN IF x[3] = 1 /\ y[3] = 1 THEN <<x[1] * y[1], 0, 1>>
         ELSE LET g == Gcd(Abs(x[1]), y[3])
                  h == Gcd(Abs(y[1]), x[3])
              IN  IF x[1] = 0 \/ y[1] = 0 THEN Zero
                  ELSE <<(x[1] \div g) * (y[1] \div h), 0, (x[3] \div h) * (y[3] \div g)>>
    ELSE Q(x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1], x[3] * y[3])

(* Squared magnitude (a real). *)
Norm2(x) == Q(x[1] * x[1] + x[2] * x[2], 0, x[3] * x[3])

Inv(x) == IF x[2] = 0 THEN (IF x[1] < 0 THEN <<-x[3], 0, -x[1]>> ELSE <<x[3], 0, x[1]>>)
          ELSE Q(x[1] * x[3], -(x[2] * x[3]), x[1] * x[1] + x[2] * x[2])
Div(x, y) == Mul(x, Inv(y))

(* Order on reals. *)
Cmp(x, y) == IF x[3] = y[3] THEN x[1] - y[1]
             ELSE LET g == Gcd(x[3], y[3])
                  IN  x[1] * (y[3] \div g) - y[1] * (x[3] \div g)
Lt(x, y) == Cmp(x, y) < 0
Le(x, y) == Cmp(x, y) <= 0
AbsR(x)  == <<Abs(x[1]), 0, x[3]>>
MaxR(x, y) == IF Lt(x, y) THEN y ELSE x
MinR(x, y) == IF Lt(y, x) THEN y ELSE x

(* Truncation towards zero, the conversion to an integer element type. *)
TruncN(x) == IF x[1] >= 0 THEN x[1] \div x[3] ELSE -((-x[1]) \div x[3])
Trunc(x)  == Int2Q(TruncN(x))

RECURSIVE IsPow2(_)
IsPow2(n) == n = 1 \/ (n % 2 = 0 /\ IsPow2(n \div 2))
(* Dyadic values are exactly representable in floating point. *)
Dyadic(x) == IsPow2(x[3])

(* Magnitude used in the overflow guards. *)
MagQ(x) == Max2(Max2(Abs(x[1]), Abs(x[2])), x[3])

RECURSIVE SumQ(_, _)
SumQ(s, n) == IF n = 0 THEN Zero ELSE IF n = 1 THEN s[1] ELSE Add(SumQ(s, n - 1), s[n])

RECURSIVE PowQ(_, _)
PowQ(x, n) == IF n = 0 THEN One ELSE Mul(x, PowQ(x, n - 1))

RECURSIVE SumN(_, _)
SumN(s, n) == IF n = 0 THEN 0 ELSE SumN(s, n - 1) + s[n]

(* Exact integer square root of a perfect square, or -1. *)
RECURSIVE IsqrtFrom(_, _)
IsqrtFrom(n, k) == IF k * k = n THEN k ELSE IF k * k > n THEN -1 ELSE IsqrtFrom(n, k + 1)

-----------------------------------------------------------------------------
(* Element types of the library: i int, f float, d double, c complex<float>,
   z complex<double>, b bool, u std::size_t.                                *)
IsCplx(t) == t \in {"c", "z"}
IsFloat(t) == t \in {"f", "d"}
BaseOf(t) == IF t = "z" THEN "d" ELSE IF t = "c" THEN "f" ELSE t
Rank(t) == IF t = "b" THEN 0 ELSE IF t = "i" THEN 1 ELSE IF t = "u" THEN 2 ELSE IF t = "f" THEN 3 ELSE 4

(* The promoted type: complex if either is complex, over the common base. *)
CommonT(t1, t2) ==
    LET b == IF Rank(BaseOf(t1)) >= Rank(BaseOf(t2)) THEN BaseOf(t1) ELSE BaseOf(t2)
    IN  IF IsCplx(t1) \/ IsCplx(t2) THEN (IF b = "d" THEN "z" ELSE "c")
        ELSE b
(* std::complex<int> is not used: an integer and a complex value promote to
   the complex type. *)

(* The value x stored into an element of type t. *)
Conv(t, x) == IF t \in {"i", "u"} THEN Trunc(x) ELSE IF t = "b" THEN (IF x = Zero THEN Zero ELSE One) ELSE x

(* Can a value of element type s be converted to element type t? *)
Convertible(s, t) == IsCplx(t) \/ ~IsCplx(s)

(* x/y computed in type t (integer division truncates). *)
DivT(t, x, y) == IF t \in {"i", "u"} THEN Trunc(Div(x, y)) ELSE Div(x, y)
=============================================================================
