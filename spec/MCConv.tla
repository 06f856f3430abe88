------------------------------- MODULE MCConv -------------------------------
(***************************************************************************)
(* Every conversion on every value of the families below.                  *)
(*    start --Pick--> conv --Convert--> done                               *)
(***************************************************************************)
EXTENDS NConv, TLC, Json, FiniteSets

CONSTANTS Tier, Emit

Q == Tier = "quick"
F(s) == <<>> \o s
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Map1(Op(_), S) == F([x \in 1..Len(S) |-> Op(S[x])])
Map2(Op(_, _), S, T) ==
    F([x \in 1..(Len(S) * Len(T)) |-> Op(S[((x - 1) \div Len(T)) + 1], T[((x - 1) % Len(T)) + 1])])
RECURSIVE Strs(_, _)
Strs(al, n) ==
    IF n = 0 THEN <<<<>>>>
    ELSE LET p == Strs(al, n - 1)
             m == Len(al) ^ (n - 1)
         IN p \o F([x \in 1..(Len(al) * m) |->
                     Append(p[Len(p) - m + ((x - 1) \div Len(al)) + 1], al[((x - 1) % Len(al)) + 1])])
Str(s) == <<"s", s>>
Byt(s) == <<"y", s>>

(* ------------------------------ digits --------------------------------- *)
IntTys == <<"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize">>
AllTys == IntTys \o <<"f32", "f64", "u128", "i128">>

(* long division of a number by the radix: <<quotient, remainder>> *)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(x, m, rem, k) ==      \* from the most significant byte down
    IF k = 0 THEN <<<<>>, rem>>
    ELSE LET t == rem * 256 + x[k]
             r == DivFrom(x, m, t % m, k - 1)
         IN <<Append(r[1], t \div m), r[2]>>
DigitOf(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Digits(_, _)        \* of a number given by its bytes, without leading zeros
Digits(x, radix) ==
    IF IsZero(x) THEN <<>>
    ELSE LET q == DivFrom(x, radix, 0, Len(x))
         IN Append(Digits(q[1], radix), DigitOf(q[2]))
MaxMag(ty) == IF Signed(ty) THEN F([x \in 1..SizeOf[ty] |-> IF x = SizeOf[ty] THEN 127 ELSE 255])
              ELSE F([x \in 1..SizeOf[ty] |-> 255])
Up(s) == F([x \in 1..Len(s) |-> IF s[x] >= 97 THEN s[x] - 32 ELSE s[x]])
(* numbers around the limits of the type *)
Edge(ty, radix) ==
    LET mx == MaxMag(ty)
        m1 == Append(mx, 0)
        succ == MulAdd(mx, 1, 1)
        succ2 == MulAdd(mx, 1, 2)
        pred == F([mx EXCEPT ![1] = @ - 1])
        d(x) == Digits(x, radix)
        one == F([x \in 1..SizeOf[ty] |-> IF x = 1 THEN 1 ELSE 0])
        top == F([x \in 1..SizeOf[ty] |-> IF x = SizeOf[ty] THEN 1 ELSE 0])
    IN <<d(mx), d(succ), d(succ2), d(pred), Append(d(mx), 48), Append(d(pred), 49), <<48, 48>> \o d(mx),
         <<43>> \o d(mx), <<43>> \o d(succ), <<45>> \o d(mx), <<45>> \o d(succ), <<45>> \o d(succ2),
         <<45, 48>> \o d(succ), <<45>> \o d(one), <<45>> \o d(top), <<43>> \o d(top), Append(d(mx), 32),
         <<32>> \o d(mx), Up(d(mx)), Append(d(top), 95), d(top) \o d(top) \o d(top),
         <<43, 45>> \o d(one), <<45, 45>> \o d(one), <<45, 43>> \o d(one), Append(d(one), 233)>>
Radices == IF Q THEN <<2, 8, 10, 16, 36>> ELSE F([x \in 1..35 |-> x + 1])
RadStrs(ty, radix) ==
    Strs(<<43, 45, 48, 49, 55, 57, 97, 70, 122, 90, 95, 233>>, IF Q THEN 2 ELSE 3) \o Edge(ty, radix)

RadixCases == Flat(Map2(LAMBDA ty, r : Map1(LAMBDA s : <<<<"radix", ty, r>>, Str(s)>>, F(RadStrs(ty, r))),
                        IntTys, Radices))
Words == <<True_, False_, <<>>, <<84, 114, 117, 101>>, <<116, 114, 117>>, <<116, 114, 117, 101, 101>>,
           <<32, 116, 114, 117, 101>>, <<49>>, <<48>>>>
StrCases ==
    Flat(Map1(LAMBDA ty : Map1(LAMBDA s : <<<<"fromstr", ty>>, Str(s)>>, F(RadStrs(ty, 10))), IntTys))
    \o Map2(LAMBDA ty, s : <<<<"fromstr", ty>>, Str(s)>>, <<"bool", "char", "string">>,
            Words \o Strs(<<97, 233, 20013, 128512, 10>>, 2))

(* ------------------------------- bytes --------------------------------- *)
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN <<>> ELSE Append(Seqs(n - 1), (n * 37 + 3) % 256)
ByteInputs(n) ==
    Flat(Map1(LAMBDA l : <<Seqs(l), F([x \in 1..l |-> 255]), F([x \in 1..l |-> IF x = l THEN 128 ELSE 0])>>,
              <<0, 1, n \div 2, n - 1, n, n + 1, 2 * n, 2 * n + 1>>))
    \o Map1(LAMBDA k : F([x \in 1..n |-> IF x = k THEN 129 ELSE 0]), F([x \in 1..n |-> x]))
EndCases == Flat(Map2(LAMBDA c, ty : Map1(LAMBDA s : <<<<c, ty>>, Byt(s)>>, F(ByteInputs(SizeOf[ty]))),
                      <<"le", "be", "ne">>, AllTys))

(* -------------------------------- UTF-8 -------------------------------- *)
UB == <<0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 238, 239, 240, 241, 244,
        245, 255>>
Leads == <<194, 224, 225, 237, 239, 240, 241, 243, 244>>
Conts == <<65, 127, 128, 143, 144, 159, 160, 191, 192>>
Conts1 == <<65, 128, 191, 194>>
UtfStrs == Strs(UB, IF Q THEN 2 ELSE 3)
           \o Flat(Map2(LAMBDA l, c : Map1(LAMBDA d : <<l, c, d>>, Conts1), Leads, Conts))
           \o Flat(Map2(LAMBDA l, c : Map2(LAMBDA d, e : <<l, c, d, e>>, Conts1, Conts1), Leads, Conts))
           \o Flat(Map2(LAMBDA l, c : Map2(LAMBDA d, e : <<l, c, d, e, 65>>, <<128, 65>>, <<191, 225>>), Leads, Conts))
           \o <<<<65, 195, 169, 228, 184, 173, 240, 159, 152, 128, 66>>>>
UtfCases == Map2(LAMBDA c, s : <<c, Byt(s)>>, <<<<"utf8", "str">>, <<"utf8", "string">>, <<"lossy", "cow">>>>, UtfStrs)

(* -------------------------------- bounds ------------------------------- *)
I32s == Map1(LAMBDA n : IntOf("i32", n), <<-2147483647, -300, -2, -1, 0, 1, 2, 255, 256, 300, 2147483647>>)
U8s  == Map1(LAMBDA n : IntOf("u8", n), <<0, 1, 2, 127, 128, 254, 255>>)
Chars == Map1(LAMBDA n : <<"c", n>>, <<0, 97, 98, 122, 233, 20013, 1114111>>)
(* -inf, -1.5, -0.0, 0.0, 1.0, 1.5, inf, NaN *)
F64s == Map1(LAMBDA b : <<"i", "f64", Zeros(6) \o b>>,
             <<<<240, 255>>, <<248, 191>>, <<0, 128>>, <<0, 0>>, <<240, 63>>, <<248, 63>>, <<240, 127>>, <<248, 127>>>>)
Texts == Map1(LAMBDA s : Str(s), <<<<>>, <<97>>, <<97, 98>>, <<98>>, <<233>>>>)
Boxed(S) == LET P == Map2(LAMBDA l, h : <<"bounded", l, h>>, S, S) IN Map2(LAMBDA c, v : <<c, v>>, P, S)
BoundCases == Boxed(I32s) \o Boxed(U8s) \o Boxed(Chars) \o Boxed(F64s) \o Boxed(Texts)

(* -------------------------------- pairs -------------------------------- *)
Prs(S) == Map2(LAMBDA v, w : <<"p", v, w>>, S, S)
PairCases == Map2(LAMBDA c, v : <<c, v>>, <<<<"sel0">>, <<"sel1">>, <<"seleq">>, <<"selneq">>>>,
                  Prs(I32s) \o Prs(Texts) \o Prs(F64s))
             \o Map2(LAMBDA c, v : <<c, v>>, <<<<"sel0">>, <<"sel1">>>>, Map2(LAMBDA v, w : <<"p", v, w>>, Texts, I32s))

(* ------------------------------ type changes --------------------------- *)
IV(ty) == Map1(LAMBDA b : <<"i", ty, b>>, F(
            LET n == SizeOf[ty]
            IN <<Zeros(n), F([x \in 1..n |-> 255]), F([x \in 1..n |-> IF x = n THEN 128 ELSE 0]),
                 F([x \in 1..n |-> IF x = n THEN 127 ELSE 255])>>
               \o Map2(LAMBDA k, b : F([x \in 1..n |-> IF x = k THEN b ELSE 0]), F([x \in 1..n |-> x]), <<1, 127, 128, 255>>)
               \o Map2(LAMBDA k, b : F([x \in 1..n |-> IF x < k THEN b ELSE 255]), F([x \in 1..n |-> x]), <<127, 128>>)))
CharNums == Map1(LAMBDA n : <<"i", "u32", U32(n)>>,
                 <<0, 97, 233, 55295, 55296, 57343, 57344, 65535, 65536, 1114111, 1114112, 16777216, 2147483647>>)
            \o <<<<"i", "u32", <<97, 0, 0, 255>>>>>>
CastCases ==
    Flat(Map1(LAMBDA p : Map1(LAMBDA v : <<<<"tryinto", p[2]>>, v>>, IV(p[1])),
              <<<<"i32", "u8">>, <<"i32", "i8">>, <<"i32", "u64">>, <<"i64", "i32">>, <<"u8", "i8">>, <<"u64", "usize">>,
                <<"i16", "u16">>, <<"u32", "i32">>, <<"u8", "u32">>>>))
    \o Map1(LAMBDA v : <<<<"tryinto", "char">>, v>>, CharNums)
    \o Map1(LAMBDA s : <<<<"tryinto", "array">>, Byt(s)>>, Strs(<<0, 200>>, 3))
    \o Flat(Map1(LAMBDA p : Map1(LAMBDA v : <<<<"into", p[2]>>, v>>, IV(p[1])),
              <<<<"u8", "u32">>, <<"u8", "i64">>, <<"i8", "i32">>, <<"u32", "u64">>, <<"u8", "char">>>>))
    \o Map1(LAMBDA v : <<<<"into", "u32">>, v>>, Chars)
    \o Map1(LAMBDA v : <<<<"into", "string">>, v>>, Texts)

(* -------------------------- closures, defaults, chains ----------------- *)
Nums == Map1(LAMBDA s : Str(s), Strs(<<48, 49, 55, 57, 45, 97>>, IF Q THEN 3 ELSE 4))
Ints == <<"fromstr", "i32">>
B5 == <<"bounded", IntOf("i32", 1), IntOf("i32", 17)>>
MixCases ==
    Map2(LAMBDA c, v : <<c, v>>,
         << <<"count">>, <<"refuse", 49>>, <<"fixed", 0>>, <<"fixed", 3>>,
            <<"pipe", Ints, B5>>, <<"pipe", Ints, <<"tryinto", "u8">>>>,
            <<"pipe", Ints, <<"default", B5, IntOf("i32", 0)>>>>,
            <<"default", Ints, IntOf("i32", 7)>>,
            <<"pipe", <<"default", Ints, IntOf("i32", 7)>>, B5>>,
            <<"default", <<"fixed", 5>>, Str(<<98>>)>>,
            <<"default", <<"refuse", 49>>, Str(<<98>>)>>,
            <<"pipe", <<"refuse", 49>>, Ints>>,
            <<"pipe", <<"radix", "u32", 16>>, <<"tryinto", "char">>>> >>, Nums)
    \o Map2(LAMBDA c, v : <<c, v>>,
         << <<"pipe", <<"utf8", "str">>, Ints>>, <<"pipe", <<"le", "u16">>, <<"tryinto", "u8">>>>,
            <<"default", <<"be", "u16">>, IntOf("u16", 513)>> >>,
         Map1(LAMBDA s : Byt(s), Strs(<<0, 1, 49, 55, 200>>, 3)))

Cases == RadixCases \o StrCases \o EndCases \o UtfCases \o BoundCases \o PairCases \o CastCases \o MixCases

(* ------------------------------- machine ------------------------------- *)
VARIABLES ph, ci, res
vars == <<ph, ci, res>>

Init == ph = "start" /\ ci = 0 /\ res = <<>>
(* the split only serves to give every worker something to do *)
Blk == 64
Pick == /\ ph = "start" /\ ph' = "conv" /\ UNCHANGED res
        /\ ci' \in 0..((Len(Cases) - 1) \div Blk)
Convert ==
    /\ ph = "conv" /\ ph' = "done"
    /\ \E k \in (ci * Blk + 1)..(IF (ci + 1) * Blk < Len(Cases) THEN (ci + 1) * Blk ELSE Len(Cases)) :
         /\ ci' = k
         /\ res' = Apply(Cases[k][1], Cases[k][2])
         /\ IF Emit THEN PrintT(ToJson(<<"V", Cases[k][1], Cases[k][2], res', OutSize(Cases[k][1])>>)) ELSE TRUE
Next == Pick \/ Convert
Spec == Init /\ [][Next]_vars

(* --------------------------------- laws -------------------------------- *)
(* Stated without the evaluation above: a number text denotes the number   *)
(* whose digits it consists of, and every number of the type has a text.   *)
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[1] = 48 THEN Strip(Tail(s)) ELSE s
Low(s) == [x \in 1..Len(s) |-> IF s[x] >= 65 /\ s[x] <= 90 THEN s[x] + 32 ELSE s[x]]
LeText(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ (a = b \/ LtSeq(a, b)))
LawRadix(ty, radix, s, r) ==
    LET sg == s # <<>> /\ s[1] \in {43, 45}
        body == IF sg THEN Tail(s) ELSE s
        neg == s # <<>> /\ s[1] = 45
        wellformed == /\ body # <<>> /\ (neg => Signed(ty))
                      /\ \A x \in 1..Len(body) : DigitVal(body[x], radix) >= 0
        limit == IF neg THEN Digits(MinMag(SizeOf[ty]), radix) ELSE Digits(MaxMag(ty), radix)
        text == Strip(Low(body))
    IN /\ IsOk(r) <=> (wellformed /\ LeText(text, limit))
       /\ IsOk(r) => LET b == r[2][3]
                         isneg == Signed(ty) /\ Sgn(b)
                     IN /\ r[2][2] = ty /\ Len(b) = SizeOf[ty]
                        /\ Digits(IF isneg THEN Neg(b) ELSE b, radix) = text
                        /\ (text # <<>>) => (isneg <=> neg)
       /\ ~IsOk(r) => r = Er_("FromStr")

Enc(c) == IF c < 128 THEN <<c>>
          ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
          ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
          ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE EncAll(_)
EncAll(s) == IF s = <<>> THEN <<>> ELSE Enc(s[1]) \o EncAll(Tail(s))
Scalar(c) == c >= 0 /\ c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)
LawUtf8(b, r) ==
    /\ IsOk(r) => /\ EncAll(r[2][2]) = b
                  /\ \A x \in 1..Len(r[2][2]) : Scalar(r[2][2][x])
                  /\ Lossy(b) = r[2][2]
    /\ ~IsOk(r) => /\ r = Er_("Utf8Error")
                   /\ EncAll(Lossy(b)) # b
(* text that is well formed up to some point is kept up to there *)
LawLossy(b, r) ==
    /\ IsOk(r) /\ \A x \in 1..Len(r[2][2]) : Scalar(r[2][2][x])
    /\ \A k \in 0..Len(b) : LET u == Utf8(SubSeq(b, 1, k))
                            IN IsOk(u) => SubSeq(r[2][2], 1, Len(u[2][2])) = u[2][2]
    /\ Len(EncAll(r[2][2])) >= Len(b) \/ ~IsOk(Utf8(b))

RECURSIVE Law(_, _, _)
Law(c, v, r) ==
    CASE c[1] = "radix" -> LawRadix(c[2], c[3], v[2], r)
      [] c[1] = "fromstr" /\ c[2] \in DOMAIN SizeOf -> LawRadix(c[2], 10, v[2], r)
      [] c[1] = "utf8" -> LawUtf8(v[2], r)
      [] c[1] = "lossy" -> LawLossy(v[2], r)
      [] c[1] = "be" -> LET n == SizeOf[c[2]]
                        IN IF Len(v[2]) >= n
                           THEN r = Apply(<<"le", c[2]>>, <<"y", Rev(SubSeq(v[2], 1, n))>>)
                           ELSE r = Er_("FromBeBytes")
      [] c[1] \in {"le", "ne"} -> IF Len(v[2]) >= SizeOf[c[2]] THEN r[2] = <<"i", c[2], SubSeq(v[2], 1, SizeOf[c[2]])>>
                                  ELSE ~IsOk(r)
      [] c[1] = "bounded" -> /\ IsOk(r) => (r[2] = v /\ ~Lt(v, c[2]) /\ ~Le(c[3], v))
                             /\ (v[1] = "i" /\ v[2] = "f64" /\ IsNaN("f64", v[3])) => ~IsOk(r)
                             /\ ~IsOk(r) => r = Er_("Bounded")
      [] c[1] = "tryinto" /\ c[2] \in DOMAIN SizeOf ->
            /\ IsOk(r) => (Wide(r[2]) = Wide(v) /\ Len(r[2][3]) = SizeOf[c[2]])
            /\ ~IsOk(r) => LET lim == <<"i", c[2], MaxMag(c[2])>>
                               low == <<"i", c[2], IF Signed(c[2]) THEN MinMag(SizeOf[c[2]]) ELSE Zeros(SizeOf[c[2]])>>
                               gt(x, y) == IF (x[17] >= 128) # (y[17] >= 128) THEN y[17] >= 128 ELSE Cmp(x, y) > 0
                           IN gt(Wide(v), Wide(lim)) \/ gt(Wide(low), Wide(v))
      [] c[1] = "default" -> IsOk(r) /\ (r[2] # c[3] => IsOk(Apply(c[2], v)))
      [] c[1] = "pipe" -> \/ ~IsOk(Apply(c[2], v)) /\ r = Apply(c[2], v)
                          \/ IsOk(Apply(c[2], v)) /\ r = Apply(c[3], Apply(c[2], v)[2]) /\ Law(c[3], Apply(c[2], v)[2], r)
      [] OTHER -> r[1] \in {"ok", "err"}
LawConv == ph = "done" => Law(Cases[ci][1], Cases[ci][2], res)
=============================================================================
