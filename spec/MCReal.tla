-------------------------------- MODULE MCReal --------------------------------
(* Real numbers against themselves: every conversion the specification makes  *)
(* is checked against another description of the same value (a product of an  *)
(* integer and a power of two, the midpoints between neighbours, the decimal  *)
(* text), at and around every exponent.                                       *)
EXTENDS Print, TLC, IOUtils

Dense == IOEnv.MC_DENSE = "1"
Z(n) == Rep(0, n)
O(n) == Rep(1, n)
\* mantissas of 52 bits: around the 23 bits a float keeps, and around the end
DMans == {Z(52), Z(51) \o <<1>>, O(52), O(51) \o <<0>>, <<1>> \o Z(51),
          Z(23) \o <<1>> \o Z(28), Z(23) \o <<1>> \o Z(27) \o <<1>>, Z(23) \o <<0>> \o O(28), Z(22) \o <<1>> \o <<1>> \o Z(28),
          Z(22) \o <<1, 0>> \o O(28), O(23) \o <<1>> \o Z(28), O(23) \o <<0>> \o O(28), O(22) \o <<0, 1>> \o Z(28), O(22) \o <<0, 1>> \o Z(27) \o <<1>>,
          <<0>> \o O(22) \o <<1>> \o Z(28), <<1>> \o Z(22) \o <<1>> \o Z(28), <<1, 0, 1>> \o Z(49), Z(1) \o <<1>> \o Z(50), O(24) \o Z(28), Z(29) \o <<1>> \o Z(22)}
DExps == IF Dense THEN 0..2047 ELSE {0, 1, 2, 500, 1500, 2045, 2046, 2047} \cup (868..905) \cup (1015..1030) \cup (1044..1090) \cup (1146..1155)
FMans == {Z(23), Z(22) \o <<1>>, O(23), O(22) \o <<0>>, <<1>> \o Z(22), Z(11) \o <<1>> \o Z(11), <<1, 0, 1>> \o Z(20), Z(10) \o O(13)}
FExps == 0..255
Signs == {0, 1}

VARIABLE c
Init ==
  \/ c \in [k : {"d0"}, s : Signs, x : DExps]
  \/ c \in [k : {"f0"}, s : Signs, x : FExps]
  \/ c \in [k : {"i0"}, f : {"F", "D"}, e : 0..63]
  \/ c \in [k : {"t0"}, p : 0..11]
\* the rest of a value is chosen in a step, so that workers share the values
Next ==
  \/ c.k = "d0" /\ \E m \in DMans : c' = [k |-> "d", s |-> c.s, x |-> c.x, m |-> m]
  \/ c.k = "f0" /\ \E m \in FMans : c' = [k |-> "f", s |-> c.s, x |-> c.x, m |-> m]
  \/ c.k = "i0" /\ \E m \in {Z(52), O(52), Z(51) \o <<1>>, <<1>> \o Z(51), Z(22) \o <<1>> \o Z(29), O(23) \o Z(29), Z(23) \o O(29)} :
                     c' = [k |-> "i", f |-> c.f, e |-> c.e, m |-> m]
  \/ c.k = "t0" /\ \E q \in 0..(IF Dense THEN 2047 ELSE 300) : c' = [k |-> "t", q |-> q, p |-> c.p]
Spec == Init /\ [][Next]_c

\* n * 2^k as a double (0 < n < 2^31, result normal)
Prod(n, k) ==
  LET b == BitsOf(MagToReal(FALSE, B8(n), DB), DB) IN
  MkReal(<< 0 >> \o IntToBits(BitsToInt(Exp(b, DB)) + k, 11) \o Man(b, DB))
\* a finite float's magnitude as an integer times a power of two
FInt(b) == BitsToInt(Man(b, FB)) + (IF BitsToInt(Exp(b, FB)) > 0 THEN 8388608 ELSE 0)
FPow(b) == Max2(BitsToInt(Exp(b, FB)), 1) - 150
Abs(v, f) == MkReal(<< 0 >> \o Tail(BitsOf(v, f)))
\* halfway from a float's magnitude to the next
Mid(v) == LET b == BitsOf(v, FB) IN Prod(2 * FInt(b) + 1, FPow(b) - 1)
DecP(v) == MkReal(LET n == BitsOf(v, FB) IN [i \in 1..32 |-> IF \A j \in (i + 1)..32 : n[j] = 0 THEN 1 - n[i] ELSE n[i]])   \* the float before
Even(v) == v[8] % 2 = 0
Inf(f) == MkReal(<< 0 >> \o O(f.e) \o Z(f.m))
Nearest(d, r) ==      \* magnitudes
  /\ r # Inf(FB) => LET m == Mid(r) IN RLe(d, m, DB) /\ (d = m => Even(r))
  /\ r # Zero8 => LET p == DecP(r)  m == Mid(p) IN RLe(m, d, DB) /\ (d = m => Even(r))

DoubleRight(v) ==
  LET r == DoubleToFloat(v) IN
  IF IsNaN(v, DB) THEN IsNaN(r, FB)
  ELSE /\ Neg(r, FB) = Neg(v, DB) /\ ~IsNaN(r, FB)
       /\ IF Abs(v, DB) = Inf(DB) THEN Abs(r, FB) = Inf(FB) ELSE Nearest(Abs(v, DB), Abs(r, FB))
       /\ RLe(v, v, DB) /\ RLe(r, r, FB)
       \* what is exact survives
       /\ (FloatToDouble(r) = v => DoubleToFloat(FloatToDouble(r)) = r)
FloatRight(v) ==
  LET d == FloatToDouble(v)  b == BitsOf(v, FB) IN
  IF IsNaN(v, FB) THEN IsNaN(d, DB)
  ELSE /\ Neg(d, DB) = Neg(v, FB)
       /\ DoubleToFloat(d) = v
       /\ IF AllOnes(Exp(b, FB)) THEN Abs(d, DB) = Inf(DB)
          ELSE IF FInt(b) = 0 THEN Abs(d, DB) = Zero8
          ELSE Abs(d, DB) = Prod(FInt(b), FPow(b))
       \* order is kept against zero, one and itself
       /\ \A w \in {Zero8, MkReal(<< 0 >> \o IntToBits(127, 8) \o Z(23)), MkReal(<< 1 >> \o IntToBits(127, 8) \o Z(23)), Abs(v, FB)} :
            /\ RLe(v, w, FB) = RLe(d, FloatToDouble(w), DB)
            /\ RLe(w, v, FB) = RLe(FloatToDouble(w), d, DB)
            /\ RLe(v, w, FB) \/ RLe(w, v, FB)
            /\ (RLe(v, w, FB) /\ RLe(w, v, FB)) => (v = w \/ (IsZero(v, FB) /\ IsZero(w, FB)))
\* integers whose leading bits are 1 ++ mantissa, followed by every kind of rest
IntRight(e, m0, f) ==
  LET m == SubSeq(m0, 1, f.m)
      low == e - f.m
      U(rest) == FromBits(Z(63 - e) \o << 1 >> \o (IF low >= 0 THEN m \o rest ELSE SubSeq(m, 1, e)))
      exact == MkReal(<< 0 >> \o IntToBits(Bias(f) + e, f.e) \o (IF low >= 0 THEN m ELSE SubSeq(m, 1, e) \o Z(f.m - e)))
      next == MkReal(IncBits(BitsOf(exact, f)))
      conv(u) == IntToReal(TagOf("uint", u), f)
  IN /\ conv(U(Z(Max2(low, 0)))) = exact
     /\ low > 0 => /\ conv(U(<< 1 >> \o Z(low - 1))) = (IF Even(exact) THEN exact ELSE next)
                   /\ conv(U(<< 0 >> \o O(low - 1))) = exact
     /\ low > 1 => /\ conv(U(<< 1 >> \o Z(low - 2) \o << 1 >>)) = next
                   /\ conv(U(O(low))) = next
     /\ e < 63 => IntToReal(TagOf("int", Neg8(U(Z(Max2(low, 0))))), f) = MkReal(<< 1 >> \o Tail(BitsOf(exact, f)))
     \* whole numbers are printed as themselves
     /\ (f = DB => RealText(exact, f) = DecU(U(Z(Max2(low, 0)))) \o << 46, 48, 48, 48, 48, 48, 48 >>)
\* q / 2^p in decimal
TextRight(q, p) ==
  LET v == IF q = 0 THEN Zero8 ELSE Prod(q, -p)
      n == q * 1000000
      d == 2 ^ p
      lo == n \div d
      r == 2 * (n % d)
      x == IF r > d \/ (r = d /\ lo % 2 = 1) THEN lo + 1 ELSE lo
      fr == x % 1000000
      Dig(k) == 48 + ((fr \div (10 ^ k)) % 10)
  IN RealText(v, DB) = DecI(x \div 1000000) \o << 46, Dig(5), Dig(4), Dig(3), Dig(2), Dig(1), Dig(0) >>
Right ==
  CASE c.k = "d" -> DoubleRight(MkReal(<< c.s >> \o IntToBits(c.x, 11) \o c.m))
    [] c.k = "f" -> FloatRight(MkReal(<< c.s >> \o IntToBits(c.x, 8) \o c.m))
    [] c.k = "i" -> IntRight(c.e, c.m, IF c.f = "F" THEN FB ELSE DB)
    [] c.k = "t" -> TextRight(c.q, c.p)
    [] OTHER -> TRUE
===============================================================================
