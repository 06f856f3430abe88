------------------------------- MODULE NConv -------------------------------
(***************************************************************************)
(* Value conversions (src/map.rs).                                         *)
(*                                                                         *)
(* A conversion is a tuple, a value is a tuple:                            *)
(*   <<"i", ty, bytes>>  number of the machine type ty, as its memory      *)
(*                       representation, least significant byte first      *)
(*   <<"s", codes>>      text                                              *)
(*   <<"y", bytes>>      bytes                                             *)
(*   <<"c", code>>  <<"B", bool>>  <<"p", v, w>>                           *)
(* An outcome is <<"ok", value>> or <<"err", name of the error>>.          *)
(*                                                                         *)
(* TLC's integers have 32 bits, so numbers are computed on byte sequences. *)
(***************************************************************************)
EXTENDS Integers, Sequences

Ok_(v) == <<"ok", v>>
Er_(e) == <<"err", e>>
IsOk(r) == r[1] = "ok"

SizeOf == [u8 |-> 1, i8 |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4, f32 |-> 4,
           u64 |-> 8, i64 |-> 8, usize |-> 8, isize |-> 8, f64 |-> 8, u128 |-> 16, i128 |-> 16]
Signed(ty) == ty \in {"i8", "i16", "i32", "i64", "isize", "i128"}
Float(ty) == ty \in {"f32", "f64"}

Rev(s) == [x \in 1..Len(s) |-> s[Len(s) + 1 - x]]
Zeros(n) == [x \in 1..n |-> 0]

(* ------------------------- unsigned arithmetic ------------------------- *)
(* x * m + d, on as many bytes as x has plus one *)
RECURSIVE MulAddFrom(_, _, _, _)
MulAddFrom(x, m, carry, k) ==
    IF k > Len(x) THEN <<carry>>
    ELSE LET t == x[k] * m + carry IN <<t % 256>> \o MulAddFrom(x, m, t \div 256, k + 1)
MulAdd(x, m, d) == MulAddFrom(x, m, d, 1)

(* comparison of byte sequences of one length, most significant byte last *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(x, y, k) ==
    IF k = 0 THEN 0 ELSE IF x[k] < y[k] THEN -1 ELSE IF x[k] > y[k] THEN 1 ELSE CmpFrom(x, y, k - 1)
Cmp(x, y) == CmpFrom(x, y, Len(x))

(* two's complement *)
RECURSIVE NegFrom(_, _, _)
NegFrom(x, carry, k) ==
    IF k > Len(x) THEN <<>>
    ELSE LET t == (255 - x[k]) + carry IN <<t % 256>> \o NegFrom(x, t \div 256, k + 1)
Neg(x) == NegFrom(x, 1, 1)

MinMag(w) == [x \in 1..w |-> IF x = w THEN 128 ELSE 0]     \* 2^(8w-1)

(* ----------------------------- radix digits ---------------------------- *)
DigitVal(c, radix) ==
    LET v == IF c >= 48 /\ c <= 57 THEN c - 48
             ELSE IF c >= 97 /\ c <= 122 THEN c - 87
             ELSE IF c >= 65 /\ c <= 90 THEN c - 55 ELSE 99
    IN IF v < radix THEN v ELSE -1

RECURSIVE MagFrom(_, _, _, _)     \* magnitude of the digits s[k..], <<>> if there is none
MagFrom(s, radix, k, acc) ==
    IF k > Len(s) THEN acc
    ELSE LET d == DigitVal(s[k], radix)
             t == MulAdd(acc, radix, d)
         IN IF d < 0 THEN <<>>
            ELSE IF t[Len(t)] # 0 THEN <<>>
            ELSE MagFrom(s, radix, k + 1, SubSeq(t, 1, Len(acc)))

RadixParse(ty, radix, s) ==
    LET w == SizeOf[ty]
        neg == Len(s) > 1 /\ s[1] = 45 /\ Signed(ty)
        pos == Len(s) > 1 /\ s[1] = 43
        from == IF neg \/ pos THEN 2 ELSE 1
        m == IF s = <<>> THEN <<>> ELSE MagFrom(s, radix, from, Zeros(w))
    IN IF m = <<>> THEN Er_("FromStr")
       ELSE IF ~Signed(ty) THEN Ok_(<<"i", ty, m>>)
       ELSE IF neg THEN (IF Cmp(m, MinMag(w)) <= 0 THEN Ok_(<<"i", ty, Neg(m)>>) ELSE Er_("FromStr"))
       ELSE (IF Cmp(m, MinMag(w)) < 0 THEN Ok_(<<"i", ty, m>>) ELSE Er_("FromStr"))

(* -------------------------------- UTF-8 -------------------------------- *)
(* the sequence starting at b[k]: <<code, length>>, or <<-1, length of the *)
(* maximal ill-formed part>> (Unicode, table 3-7)                          *)
Tail_(b, k, j) == k + j <= Len(b) /\ b[k + j] >= 128 /\ b[k + j] <= 191
Decode1(b, k) ==
    LET x == b[k]
        lo == IF x = 224 THEN 160 ELSE IF x = 240 THEN 144 ELSE 128
        hi == IF x = 237 THEN 159 ELSE IF x = 244 THEN 143 ELSE 191
        snd == k + 1 <= Len(b) /\ b[k + 1] >= lo /\ b[k + 1] <= hi
    IN CASE x < 128 -> <<x, 1>>
         [] x >= 194 /\ x <= 223 ->
              IF snd THEN <<(x - 192) * 64 + (b[k + 1] - 128), 2>> ELSE <<-1, 1>>
         [] x >= 224 /\ x <= 239 ->
              IF ~snd THEN <<-1, 1>> ELSE IF ~Tail_(b, k, 2) THEN <<-1, 2>>
              ELSE <<(x - 224) * 4096 + (b[k + 1] - 128) * 64 + (b[k + 2] - 128), 3>>
         [] x >= 240 /\ x <= 244 ->
              IF ~snd THEN <<-1, 1>> ELSE IF ~Tail_(b, k, 2) THEN <<-1, 2>>
              ELSE IF ~Tail_(b, k, 3) THEN <<-1, 3>>
              ELSE <<(x - 240) * 262144 + (b[k + 1] - 128) * 4096 + (b[k + 2] - 128) * 64 + (b[k + 3] - 128), 4>>
         [] OTHER -> <<-1, 1>>
RECURSIVE DecodeFrom(_, _)
DecodeFrom(b, k) == IF k > Len(b) THEN <<>>
                    ELSE LET d == Decode1(b, k) IN <<d[1]>> \o DecodeFrom(b, k + d[2])
Decode(b) == DecodeFrom(b, 1)
Lossy(b) == LET d == Decode(b) IN [x \in 1..Len(d) |-> IF d[x] < 0 THEN 65533 ELSE d[x]]
Utf8(b) == LET d == Decode(b)
           IN IF \E x \in 1..Len(d) : d[x] < 0 THEN Er_("Utf8Error") ELSE Ok_(<<"s", d>>)

(* ------------------------------- bounds -------------------------------- *)
IsNaN(ty, b) ==
    IF ty = "f64" THEN b[8] % 128 = 127 /\ b[7] >= 240 /\ (b[7] % 16 # 0 \/ \E x \in 1..6 : b[x] # 0)
    ELSE b[4] % 128 = 127 /\ b[3] >= 128 /\ (b[3] % 128 # 0 \/ \E x \in 1..2 : b[x] # 0)
Mag(b) == [b EXCEPT ![Len(b)] = @ % 128]
Sgn(b) == b[Len(b)] >= 128
IsZero(b) == \A x \in 1..Len(b) : b[x] = 0
LtF(ty, a, b) ==
    /\ ~IsNaN(ty, a) /\ ~IsNaN(ty, b)
    /\ CASE IsZero(Mag(a)) /\ IsZero(Mag(b)) -> FALSE
         [] Sgn(a) /\ ~Sgn(b) -> TRUE
         [] ~Sgn(a) /\ Sgn(b) -> FALSE
         [] ~Sgn(a) -> Cmp(Mag(a), Mag(b)) < 0
         [] OTHER -> Cmp(Mag(a), Mag(b)) > 0
EqF(ty, a, b) == ~IsNaN(ty, a) /\ (a = b \/ (IsZero(Mag(a)) /\ IsZero(Mag(b))))
RECURSIVE LtSeq(_, _)
LtSeq(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] = b[1] THEN LtSeq(Tail(a), Tail(b)) ELSE a[1] < b[1]
Lt(v, w) ==
    CASE v[1] = "i" /\ Float(v[2]) -> LtF(v[2], v[3], w[3])
      [] v[1] = "i" -> IF Signed(v[2]) /\ Sgn(v[3]) # Sgn(w[3]) THEN Sgn(v[3]) ELSE Cmp(v[3], w[3]) < 0
      [] v[1] = "c" -> v[2] < w[2]
      [] v[1] = "s" -> LtSeq(v[2], w[2])
Le(v, w) == Lt(v, w) \/ (IF v[1] = "i" /\ Float(v[2]) THEN EqF(v[2], v[3], w[3]) ELSE v = w)
Same(v, w) == IF v[1] = "i" /\ Float(v[2]) THEN EqF(v[2], v[3], w[3]) ELSE v = w

(* ------------------------- integer conversion -------------------------- *)
Ext(b, sg, n) == [x \in 1..n |-> IF x <= Len(b) THEN b[x] ELSE IF sg THEN 255 ELSE 0]
(* widen to 17 bytes of two's complement, then see whether it fits *)
Wide(v) == Ext(v[3], Signed(v[2]) /\ Sgn(v[3]), 17)
Fits(wd, ty) ==
    LET n == SizeOf[ty]
    IN IF Signed(ty) THEN wd = Ext(SubSeq(wd, 1, n), wd[n] >= 128, 17)
       ELSE \A x \in (n + 1)..17 : wd[x] = 0
ToInt(v, ty) == IF Fits(Wide(v), ty) THEN Ok_(<<"i", ty, SubSeq(Wide(v), 1, SizeOf[ty])>>)
                ELSE Er_("TryInto")
Num(b) == b[1] + 256 * b[2] + 65536 * b[3]          \* of a u32 below 2^24
ToChar(v) == IF v[3][4] # 0 \/ Num(v[3]) > 1114111 \/ (Num(v[3]) >= 55296 /\ Num(v[3]) <= 57343)
             THEN Er_("TryInto") ELSE Ok_(<<"c", Num(v[3])>>)
U32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
RECURSIVE NBytes(_, _)
NBytes(n, w) == IF w = 0 THEN <<>> ELSE <<n % 256>> \o NBytes(n \div 256, w - 1)
IntOf(ty, n) == <<"i", ty, IF n >= 0 THEN NBytes(n, SizeOf[ty]) ELSE Neg(NBytes(-n, SizeOf[ty]))>>

(* ------------------------------ conversions ---------------------------- *)
True_  == <<116, 114, 117, 101>>
False_ == <<102, 97, 108, 115, 101>>

RECURSIVE Apply(_, _)
Apply(c, v) ==
    CASE c[1] = "radix"   -> RadixParse(c[2], c[3], v[2])
      [] c[1] = "fromstr" ->
           (CASE c[2] = "bool" -> IF v[2] = True_ THEN Ok_(<<"B", TRUE>>)
                                  ELSE IF v[2] = False_ THEN Ok_(<<"B", FALSE>>) ELSE Er_("FromStr")
              [] c[2] = "char" -> IF Len(v[2]) = 1 THEN Ok_(<<"c", v[2][1]>>) ELSE Er_("FromStr")
              [] c[2] = "string" -> Ok_(v)
              [] OTHER -> RadixParse(c[2], 10, v[2]))
      [] c[1] \in {"le", "be", "ne"} ->
           LET n == SizeOf[c[2]]
               e == IF c[1] = "le" THEN "FromLeBytes" ELSE IF c[1] = "be" THEN "FromBeBytes" ELSE "FromNeBytes"
           IN IF Len(v[2]) < n THEN Er_(e)
              ELSE LET b == SubSeq(v[2], 1, n) IN Ok_(<<"i", c[2], IF c[1] = "be" THEN Rev(b) ELSE b>>)
      [] c[1] = "utf8"    -> Utf8(v[2])
      [] c[1] = "lossy"   -> Ok_(<<"s", Lossy(v[2])>>)
      [] c[1] = "bounded" -> IF Le(c[2], v) /\ Lt(v, c[3]) THEN Ok_(v) ELSE Er_("Bounded")
      [] c[1] = "sel0"    -> Ok_(v[2])
      [] c[1] = "sel1"    -> Ok_(v[3])
      [] c[1] = "seleq"   -> IF Same(v[2], v[3]) THEN Ok_(v) ELSE Er_("SelectEq")
      [] c[1] = "selneq"  -> IF Same(v[2], v[3]) THEN Er_("SelectNeq") ELSE Ok_(v)
      [] c[1] = "into"    ->
           (CASE c[2] = "string" -> Ok_(v)
              [] c[2] = "char" -> Ok_(<<"c", v[3][1]>>)
              [] v[1] = "c" -> Ok_(<<"i", c[2], U32(v[2])>>)
              [] OTHER -> ToInt(v, c[2]))
      [] c[1] = "tryinto" ->
           (CASE c[2] = "char" -> ToChar(v)
              [] c[2] = "array" -> IF Len(v[2]) = 2 THEN Ok_(v) ELSE Er_("TryInto")
              [] OTHER -> ToInt(v, c[2]))
      [] c[1] = "fixed"   -> Ok_(v)
      [] c[1] = "count"   -> Ok_(IntOf("usize", Len(v[2])))        \* an infallible closure
      [] c[1] = "refuse"  -> IF v[2] # <<>> /\ v[2][1] = c[2] THEN Er_("Uid77") ELSE Ok_(v)
      [] c[1] = "default" -> LET r == Apply(c[2], v) IN IF IsOk(r) THEN r ELSE Ok_(c[3])
      [] c[1] = "pipe"    -> LET r == Apply(c[2], v) IN IF IsOk(r) THEN Apply(c[3], r[2]) ELSE r

(* how many bytes a conversion announces, 0: not specified here *)
RECURSIVE OutSize(_)
OutSize(c) ==
    CASE c[1] \in {"radix", "le", "be", "ne"} -> SizeOf[c[2]]
      [] c[1] = "fromstr" /\ c[2] \in DOMAIN SizeOf -> SizeOf[c[2]]
      [] c[1] = "fixed" -> c[2]
      [] c[1] = "default" -> OutSize(c[2])
      [] c[1] = "bounded" /\ c[2][1] = "i" -> SizeOf[c[2][2]]
      [] c[1] \in {"into", "tryinto"} /\ c[2] \in DOMAIN SizeOf -> SizeOf[c[2]]
      [] OTHER -> 0
=============================================================================
