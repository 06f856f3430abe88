------------------------------ MODULE NFamilies ------------------------------
(***************************************************************************)
(* The families of patterns and inputs explored for each property.         *)
(***************************************************************************)
EXTENDS NSem

CONSTANTS Prop,     \* which property
          Tier      \* "quick" or "thorough"

Q == Tier = "quick"
Sz(q, t) == IF Q THEN q ELSE t

(***************************************************************************)
(* A group: patterns x inputs x policies x handlers x positions, for some  *)
(* of the operations.                                                      *)
(*   pa   explicit before/after policies, pairs of patterns                *)
(*   er   whether the error value is part of the required outcome          *)
(***************************************************************************)
Grp0(ps, ins) ==
    [ps |-> ps, ins |-> ins, pols |-> <<<<>>>>, hds |-> <<NoHd>>, ops |-> {"mat"},
     offs |-> "zero", pa |-> <<<<Empty, Empty>>>>, er |-> FALSE]
(* ------------------------------ sequences ------------------------------ *)
F(s) == <<>> \o s          \* force evaluation
Map1(Op(_), S) == F([x \in 1..Len(S) |-> Op(S[x])])
Map2(Op(_, _), S, T) ==
    F([x \in 1..(Len(S) * Len(T)) |-> Op(S[((x - 1) \div Len(T)) + 1], T[((x - 1) % Len(T)) + 1])])
Map3(Op(_, _, _), S, T, U) ==
    F([x \in 1..(Len(S) * Len(T) * Len(U)) |->
        Op(S[((x - 1) \div (Len(T) * Len(U))) + 1],
           T[(((x - 1) \div Len(U)) % Len(T)) + 1],
           U[((x - 1) % Len(U)) + 1])])
Keep(S, Test(_)) == SelectSeq(S, Test)
(* every k-th element, starting with the r-th *)
Thin(S, k, r) == F([x \in 1..((Len(S) - r + k) \div k) |-> S[(x - 1) * k + r]])

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE Strs(_, _)      \* all sequences over al of length <= n
Strs(al, n) ==
    IF n = 0 THEN <<<<>>>>
    ELSE LET p == Strs(al, n - 1)
             m == Len(al) ^ (n - 1)
         IN p \o F([x \in 1..(Len(al) * m) |->
                     Append(p[Len(p) - m + ((x - 1) \div Len(al)) + 1], al[((x - 1) % Len(al)) + 1])])
Text(ss)  == Map1(LAMBDA s : [k |-> "t", cs |-> s], ss)
Bytes(ss) == Map1(LAMBDA s : [k |-> "b", cs |-> s], ss)

(* ------------------------------ vocabulary ----------------------------- *)
a_ == 97   b_ == 98   c_ == 99   cm == 44   sp == 32   nl == 10
ea == 233  zh == 20013  em == 128512
HUGE == 2000000000         \* the replayer takes it for the largest machine word

A == Once(Chr(a_))   B == Once(Chr(b_))
AA == Lit(<<a_, a_>>)
AB == Lit(<<a_, b_>>)
MA == Many1(Chr(a_)) MB == Many1(Chr(b_))
ZA == Many0(Chr(a_)) ZB == Many0(Chr(b_))
OA == OptU(Chr(a_))  OB == OptU(Chr(b_))
W  == Many1(Set_(<<a_, b_>>))
X  == Once(Set_(<<a_, b_>>))
Comma == Once(Chr(cm))
SP == Many0(Chr(sp))
SP1 == Once(Chr(sp))

Ident(x) == x

(* composite patterns over K (first position), M (second) and N (third)    *)
Bin(K, M) ==
    Map2(Then, K, M) \o Map2(Or, K, M) \o Map2(Longest, K, M) \o Map2(PrefixP, K, M)
    \o Map2(SuffixP, K, M) \o Map2(LAMBDA l, r : Branch(FPk(a_), l, r), K, M)
    \o Map2(LAMBDA l, r : Branch(FErr(b_), l, r), K, M)
Tern(K, M, N) ==
    Map3(IfThen, K, M, N) \o Map3(SepOnce, K, M, N) \o Map3(Enclose, M, K, N)
Un(K) ==
    Map1(OptP, K) \o Map1(Pat, K) \o Map1(Peek, K) \o Map1(NotP, K)
    \o Map1(LAMBDA p : MapP(p, MTag(1)), K) \o Map1(Rec, K)
    \o Map1(LAMBDA p : Irb(p, DSame), K)
    \o Map1(LAMBDA p : Irb(p, DLen), K)
    \o Map1(LAMBDA p : Irb(p, DCond(1, B)), K)
    \o Map1(LAMBDA p : Irb(p, DErr(1)), K)
    \o Map1(LAMBDA p : Wrap("rc", p), K) \o Map1(LAMBDA p : Wrap("rx_into_ctor", p), K)
Reps(K) ==
    Flat(<<Map1(LAMBDA p : Collect(p, 0), K), Map1(LAMBDA p : Collect(p, 1), K),
           Map1(LAMBDA p : Collect(p, 2), K), Map1(LAMBDA p : Collect(p, 3), K),
           Map1(LAMBDA p : Repeat(p, "i", 1, "i", 2), K), Map1(LAMBDA p : Repeat(p, "i", 2, "x", 4), K),
           Map1(LAMBDA p : Repeat(p, "i", 2, "u", 0), K), Map1(LAMBDA p : Repeat(p, "u", 0, "i", 2), K),
           Map1(LAMBDA p : Repeat(p, "i", 2, "i", 2), K), Map1(LAMBDA p : Repeat(p, "x", 1, "i", 3), K),
           Map1(LAMBDA p : Rep2(p, 0, 2), K), Map1(LAMBDA p : Rep2(p, 1, 2), K),
           Map1(LAMBDA p : Rep2(p, 2, 3), K), Map1(LAMBDA p : Rep2(p, 2, 2), K)>>)
Seps(K, S) ==
    Flat(<<Map2(LAMBDA p, s : Sep(p, s, 0, TRUE), K, S), Map2(LAMBDA p, s : Sep(p, s, 1, FALSE), K, S),
           Map2(LAMBDA p, s : Sep(p, s, 2, TRUE), K, S), Map2(LAMBDA p, s : Sep(p, s, 2, FALSE), K, S),
           Map2(LAMBDA p, s : SepCol(p, s, 0, TRUE), K, S), Map2(LAMBDA p, s : SepCol(p, s, 1, FALSE), K, S),
           Map2(LAMBDA p, s : SepCol(p, s, 2, TRUE), K, S), Map2(LAMBDA p, s : SepCol(p, s, 2, FALSE), K, S),
           Map2(LAMBDA p, s : Sep2(p, s, 1, 2, TRUE), K, S), Map2(LAMBDA p, s : Sep2(p, s, 2, 3, FALSE), K, S),
           Map2(LAMBDA p, s : Sep2(p, s, 2, 2, TRUE), K, S), Map2(LAMBDA p, s : Sep2(p, s, 0, 2, FALSE), K, S)>>)
Tabs(K, M, N) ==
    Flat(<<Map3(LAMBDA p, q, r : Arr("array", FALSE, <<p, q, r>>), K, M, N),
           Map3(LAMBDA p, q, r : Arr("array", TRUE, <<p, q, r>>), K, M, N),
           Map3(LAMBDA p, q, r : Arr("slice", FALSE, <<p, q, r>>), K, M, N),
           Map3(LAMBDA p, q, r : Arr("slice", TRUE, <<p, q, r>>), K, M, N),
           Map3(LAMBDA p, q, r : Arr("vec", FALSE, <<p, q, r>>), K, M, N),
           Map3(LAMBDA p, q, r : Arr("vec", TRUE, <<p, q, r>>), K, M, N),
           Map3(LAMBDA p, q, r : PArr("array", FALSE, <<p, q, r>>, <<11, 12, 13>>), K, M, N),
           Map3(LAMBDA p, q, r : PArr("array", TRUE, <<p, q, r>>, <<11, 12, 13>>), K, M, N),
           Map3(LAMBDA p, q, r : PArr("slice", FALSE, <<p, q, r>>, <<11, 12, 13>>), K, M, N),
           Map3(LAMBDA p, q, r : PArr("slice", TRUE, <<p, q, r>>, <<11, 12, 13>>), K, M, N),
           Map3(LAMBDA p, q, r : PArr("vec", FALSE, <<p, q, r>>, <<11, 12, 13>>), K, M, N),
           Map3(LAMBDA p, q, r : PArr("vec", TRUE, <<p, q, r>>, <<11, 12, 13>>), K, M, N)>>)
DThens(K) ==
    Flat(<<Map1(LAMBDA p : DThen(p, DSame), K), Map1(LAMBDA p : DThen(p, DLen), K),
           Map1(LAMBDA p : DThen(p, DPat(OA)), K), Map1(LAMBDA p : DThen(p, DAdv(1, B)), K),
           Map1(LAMBDA p : DThen(p, DErr(1)), K), Map1(LAMBDA p : DThen(p, DCond(1, B)), K)>>)

Sound(S) == Keep(S, WF)

(* level 1: every composite over leaves *)
K1 == IF Q THEN <<A, AB, MB>> ELSE <<A, AB, MB, OB, W, End>>
L1 == Sound(Bin(K1, K1) \o Tern(K1, <<A, MB>>, <<A, B>>) \o Un(K1) \o Reps(K1) \o Seps(K1, <<A, B>>)
            \o Tabs(<<A, AB>>, <<AB, W>>, <<MA, B>>))
(* composites that make partial progress before they fail, or succeed in   *)
(* more than one way: the components of level 2                            *)
K2 == <<Then(A, B), Or(AB, A), Longest(A, AB), OptP(AB), IfThen(A, B, A), Sep(A, B, 1, FALSE),
        Collect(AB, 1), Rep2(A, 1, 2), Enclose(A, B, A), Branch(FPk(a_), A, MB),
        Arr("array", TRUE, <<A, AB>>), SepOnce(A, B, A), Irb(A, DSame), Peek(AB), Then(OA, MB),
        MapP(AB, MTag(2)), Sep2(A, B, 1, 2, TRUE), Wrap("rc", Then(A, B))>>
K2s == IF Q THEN Thin(K2, 3, 1) ELSE K2
L2 == Sound(Bin(K2, <<A, MB>>) \o Bin(<<A, OB>>, K2) \o Bin(K2s, K2s)
            \o Tern(K2s, <<A, B>>, <<AB>>) \o Tern(<<A>>, K2s, <<MB>>) \o Tern(<<OA>>, <<B>>, K2s)
            \o Un(K2) \o Reps(K2) \o Seps(K2s, <<A, B>>) \o Seps(<<A>>, K2s)
            \o Tabs(K2s, <<AB>>, <<A>>))
(* level 3, thinned to one residue class *)
L3(k, r) == Sound(LET S == Thin(L2, k, r) IN Bin(S, <<A>>) \o Bin(<<OB>>, S) \o Un(S) \o Reps(S)
                  \o Seps(S, <<B>>) \o Tern(S, <<B>>, <<A>>) \o Tabs(S, <<AB>>, <<W>>))
(* constructions only *)
D1 == DThens(K1)
D2 == Sound(LET S == DThens(K2s) IN S \o Map2(Then, <<A>>, S) \o Map2(Or, S, <<A>>) \o Map1(OptP, S)
            \o Map1(LAMBDA p : Collect(p, 0), S) \o Map2(LAMBDA p, s : Sep(p, s, 0, TRUE), S, <<B>>)
            \o Map2(Longest, S, <<AB>>) \o Map1(LAMBDA p : MapP(p, MSel1), S) \o Map1(Rec, S)
            \o Map1(LAMBDA p : Wrap("rc", p), S) \o Map1(LAMBDA p : Wrap("boxdyn", p), S))

AB4 == Text(Strs(<<a_, b_>>, 4))
AB3 == Text(Strs(<<a_, b_>>, 3))
AB5 == Text(Strs(<<a_, b_>>, 5))
ABC(n) == Text(Strs(<<a_, b_, cm>>, n))
ABS(n) == Text(Strs(<<a_, b_, sp>>, n))
Uni(n) == Text(Strs(<<a_, ea, zh, em>>, n))
Byt(n) == Bytes(Strs(<<a_, b_, 0, 255>>, n))

Hds3 == <<NoHd, [t |-> "nth", k |-> 1], [t |-> "nth", k |-> 2], [t |-> "nth", k |-> 3],
          [t |-> "chr", k |-> b_]>>

WS == <<<<Many0(Chr(sp))>>>>
BlankU == Many0(ClsU("whitespace"))
BlankA == Many0(ClsU("ascii_whitespace"))
Blanks == <<<<BlankU>>, <<BlankA>>>>
(* blanks of every kind: ASCII, vertical tab (not an "ASCII whitespace"),   *)
(* no-break space, next line, ideographic space, and things that are none  *)
BlankT(n) == Text(Strs(<<a_, sp, 160>>, n) \o Map1(LAMBDA s : <<9, 11, 133, 12288>> \o s, Strs(<<a_, nl, ea>>, 2))
                  \o Map1(LAMBDA s : s \o <<13, 12, 11, a_>>, Strs(<<sp, 11, zh>>, 1)))
BlankB(n) == Bytes(Strs(<<a_, sp, 11>>, n) \o Map1(LAMBDA s : s \o <<9, 10, 12, 13, a_, 160>>, Strs(<<a_, 32, 133>>, 2)))
BlankLeaves == <<A, MA, OA, AB, Many0(Chr(sp)), Btw(1, 2, Chr(a_)), Times("i", 2, "u", 0, Chr(a_)), Start, End, Empty, Fail, Cons(1), ConsAll,
                 NThenP(Chr(a_), Chr(sp)), Once(ClsU("whitespace")), Once(NotU(Chr(a_)))>>

Pols == <<<<Many0(Chr(sp))>>, <<OptU(Chr(sp))>>, <<Once(Chr(sp))>>, <<Lit(<<sp, sp>>)>>,
          <<Then(Once(Chr(sp)), Once(Chr(b_)))>>, <<Empty>>, <<Fail>>>>

(* ------------------------------ properties ----------------------------- *)
G_P01 ==
  <<[Grp0(L1, Sz(AB3, AB4)) EXCEPT !.offs = "all", !.ops = {"mat", "con"}, !.hds = Hds3],
    [Grp0(L2, Sz(AB3, AB4)) EXCEPT !.ops = {"mat", "con"}, !.hds = Sz(<<NoHd, Hds3[3]>>, Hds3)],
    [Grp0(Thin(L1, 2, 1) \o Thin(L2, Sz(5, 1), 1), ABS(Sz(3, 4))) EXCEPT !.ops = {"mat", "con"}, !.pols = Sz(WS, Pols),
                                                      !.hds = <<NoHd, Hds3[3]>>],
    [Grp0(D1 \o D2, Sz(AB3, AB5)) EXCEPT !.ops = {"con"}, !.hds = Hds3],
    [Grp0(Map2(Then, <<A, RAdv(1), OA>>, <<RFail(1), RFail(2)>>) \o Map1(LAMBDA p : Or(p, RFail(1)), K1)
          \o Map2(Irb, <<A, MB>>, <<DAdv(1, B), DAdv(2, A), DErr(2)>>)
          \o Map2(LAMBDA x, y : Or(Then(A, x), y), <<RFail(2), B>>, <<RFail(1), A>>)
          \o Map1(LAMBDA p : Repeat(p, "i", 2, "i", 3), <<Then(A, RFail(1)), Or(A, RFail(3))>>)
          \o <<Once(Chr(a_)), RFail(0), RFail(2)>>, Sz(AB3, AB4))
        EXCEPT !.offs = "in", !.ops = {"mat", "con"}, !.hds = <<NoHd, Hds3[2], Hds3[3]>>]>>
  \o IF Q THEN <<>> ELSE
     <<[Grp0(L3(7, 3), AB3) EXCEPT !.ops = {"mat", "con"}, !.hds = <<NoHd, Hds3[3]>>],
       [Grp0(L1, Uni(3)) EXCEPT !.offs = "all", !.ops = {"mat", "con"}],
       [Grp0(L1, Byt(3)) EXCEPT !.offs = "all", !.ops = {"mat", "con"}]>>

NoMove == <<Start, End, Empty, UnitP>>
G_P02 ==
  <<[Grp0(L1 \o NoMove, AB4) EXCEPT !.offs = "in"],
    [Grp0(L2, Sz(AB4, AB5)) EXCEPT !.offs = Sz("zero", "in")],
    [Grp0(Thin(L1, Sz(2, 1), 1), Uni(Sz(2, 3))) EXCEPT !.offs = "bnd"],
    [Grp0(Thin(L2, Sz(4, 1), 2), ABC(3)) EXCEPT !.offs = "in"]>>
  \o IF Q THEN <<>> ELSE
     <<[Grp0(L3(5, 2), AB4) EXCEPT !.offs = "zero"],
       [Grp0(L2, Byt(3)) EXCEPT !.offs = "in"]>>

G_P03 ==
  <<[Grp0(L1, Sz(AB4, AB5)) EXCEPT !.offs = "in", !.ops = {"mat", "con"}],
    [Grp0(L2, Sz(AB4, AB5)) EXCEPT !.ops = {"mat", "con"}]>>
  \o IF Q THEN <<>> ELSE
     <<[Grp0(L3(5, 1), AB4) EXCEPT !.ops = {"mat", "con"}],
       [Grp0(L2, ABC(3)) EXCEPT !.ops = {"mat", "con"}],
       [Grp0(L1, Uni(3)) EXCEPT !.offs = "bnd", !.ops = {"mat", "con"}]>>

G_P04 ==
  <<[Grp0(L1 \o D1, Sz(AB4, AB5)) EXCEPT !.ops = {"con"}, !.hds = Hds3],
    [Grp0(L2 \o D2, Sz(AB3, AB4)) EXCEPT !.ops = {"con"}, !.hds = Hds3],
    [Grp0(K1 \o K2, Sz(AB3, AB4)) EXCEPT !.ops = {"leaf", "con"}, !.hds = Hds3, !.offs = "in"],
    [Grp0(Thin(L1, 2, 2), ABS(3)) EXCEPT !.ops = {"con"}, !.pols = WS]>>
  \o IF Q THEN <<>> ELSE
     <<[Grp0(L3(5, 3), AB4) EXCEPT !.ops = {"con"}, !.hds = <<NoHd, Hds3[3], Hds3[4]>>],
       [Grp0(L1 \o L2, Uni(2)) EXCEPT !.ops = {"con"}]>>

(* units *)
AsciiCodes == F([x \in 1..128 |-> x - 1])
OtherCodes == F([x \in 1..128 |-> x + 127]) \o
  <<256, 266, 288, 304, 305, 313, 321, 351, 353, 383, 453, 688, 769, 837, 880, 937, 969, 1040, 1072, 1488, 1632, 1635, 1785, 2406,
    5760, 6158, 8192, 8202, 8203, 8232, 8233, 8239, 8287, 8304, 8544, 8551, 8560, 9398, 12288, 12295, 20013, 65279, 65297, 65313,
    120782, 128512, 1114111>>
ByteCodes == F([x \in 1..256 |-> x - 1])
Classes == <<"alphabetic", "alphanumeric", "ascii", "ascii_alphabetic", "ascii_alphanumeric",
             "ascii_control", "ascii_digit", "ascii_graphic", "ascii_hexdigit", "ascii_lowercase",
             "ascii_punctuation", "ascii_uppercase", "ascii_whitespace", "control", "lowercase",
             "numeric", "uppercase", "whitespace", "wild", "word">>
ByteClasses == Keep(Classes, LAMBDA c : c \notin {"alphabetic", "alphanumeric", "control", "lowercase",
                                                   "numeric", "uppercase", "whitespace", "wild"})
Radixes == <<2, 3, 8, 10, 11, 16, 27, 35, 36>>
RngKinds == <<"u", "i", "x">>
Rngs(lo, hi, w) == Map2(LAMBDA lk, hk : Rng(lk, lo, hk, hi, w), RngKinds, RngKinds)
AllRngs(lo, hi) == Flat(<<Rngs(lo, hi, "std"), Rngs(lo, hi, "ref"), Rngs(lo, hi, "crange"), Rngs(lo, hi, "bounds")>>)
BaseU(x, y, z) ==
    <<Chr(x), Eq(y), Set_(<<>>), Set_(<<x>>), Set_(<<x, z>>), SetW(<<x, y, z>>, "slice"), SetW(<<y, x>>, "vec"),
      SetW(<<>>, "vec"), SetW(<<>>, "slice"), SetW(<<x, y, x, z, 48, 49, 50, 51>>, "vec"),
      SetW(<<48, 49, 50, 51, 52, z>>, "slice"), Set_(<<48, 49, z, y>>),
      FnU(2, 0), FnU(3, 1), AlwaysU, NeverU>>
UWraps == <<"box", "rc", "arc", "rcdyn", "arcdyn", "cell", "refcell", "mutex", "fn">>
U1 == BaseU(a_, b_, zh) \o Map1(ClsU, Classes) \o Map1(DigU, Radixes) \o AllRngs(97, 99) \o AllRngs(98, 98)
      \o AllRngs(233, 20013) \o AllRngs(100, 97)
UB1 == BaseU(a_, b_, 255) \o Map1(ClsU, ByteClasses) \o AllRngs(97, 99) \o AllRngs(98, 98) \o AllRngs(0, 255) \o AllRngs(100, 97)
UK == <<Chr(a_), Set_(<<a_, b_>>), RngI(98, 99), ClsU("ascii_lowercase"), FnU(2, 0), AlwaysU, NeverU, ClsU("word")>>
UBin(K, M) == Map2(AndU, K, M) \o Map2(OrU, K, M)
U2 == UBin(UK, UK) \o Map1(NotU, UK) \o Map1(LAMBDA w : WrapU(w, ClsU("word")), UWraps)
      \o Map1(LAMBDA w : WrapU(w, Chr(a_)), UWraps)
U3 == UBin(UK, Map1(NotU, UK)) \o UBin(Map1(NotU, UK), UK) \o UBin(Thin(U2, Sz(5, 2), 1), UK) \o UBin(UK, Thin(U2, Sz(5, 2), 2))
      \o Map1(NotU, U2) \o Map1(LAMBDA u : WrapU("box", NotU(u)), Thin(U2, 3, 1))
      \o Map1(LAMBDA u : NotU(WrapU("rc", u)), Thin(U2, 3, 2))
USmall == <<Chr(a_), AndU(ClsU("ascii"), NotU(Chr(b_))), OrU(Chr(zh), Chr(a_)), NotU(Chr(a_)), AlwaysU, NeverU,
            NotU(NeverU), AndU(AlwaysU, NotU(Set_(<<zh, a_>>))), OrU(NotU(Chr(a_)), Chr(em)),
            NotU(AndU(Chr(a_), Chr(b_))), WrapU("box", NotU(Chr(zh))), WrapU("refcell", OrU(Chr(a_), Chr(em)))>>
One(S) == Map1(LAMBDA x : <<x>>, S)
G_P05 ==
  <<[Grp0(Map1(Once, U1), Text(One(AsciiCodes \o OtherCodes))) EXCEPT !.ops = {"mat"}],
    [Grp0(Map1(Once, UB1), Bytes(One(ByteCodes))) EXCEPT !.ops = {"mat"}],
    [Grp0(Map1(Once, U2 \o U3), Text(<<<<>>>> \o One(<<0, 9, 10, 32, 48, 65, 95, 97, 98, 99, 100, 122, 127, ea, zh, em>>)))
        EXCEPT !.ops = {"mat"}],
    [Grp0(Map1(LAMBDA u : Once(NotU(u)), Map1(ClsU, Classes) \o Map1(DigU, <<2, 8, 10, 16, 36>>) \o Rngs(97, 99, "crange") \o <<Eq(a_), AlwaysU, NeverU>>),
          Text(One(<<0, 9, 10, 11, 32, 48, 57, 65, 95, 97, 98, 99, 102, 122, 127, 160, ea, 1635, zh, em>>))) EXCEPT !.ops = {"mat"}],
    [Grp0(Map1(LAMBDA u : Once(NotU(u)), Map1(ClsU, ByteClasses) \o Rngs(97, 99, "crange") \o <<Eq(a_)>>),
          Bytes(One(<<0, 9, 10, 11, 32, 48, 57, 65, 95, 97, 98, 99, 102, 122, 127, 128, 255>>))) EXCEPT !.ops = {"mat"}],
    [Grp0(Map1(Once, U2 \o U3), Bytes(One(<<0, 48, 95, 97, 98, 99, 100, 128, 255>>))) EXCEPT !.ops = {"mat"}],
    [Grp0(Flat(<<Map1(Many1, USmall), Map1(Many0, USmall), Map1(OptU, USmall),
                 Map1(LAMBDA u : Btw(1, 2, u), USmall), Map1(LAMBDA u : Times("i", 1, "x", 3, u), USmall),
                 Map1(LAMBDA u : Btw(0, NoMax, u), USmall), Map1(LAMBDA u : Btw(2, 2, u), USmall),
                 Map2(NThenP, USmall, USmall)>>), Text(Strs(<<a_, b_, zh, em>>, Sz(3, 4)))) EXCEPT !.offs = Sz("zero", "bnd")]>>
  \o IF Q THEN <<>> ELSE
     <<[Grp0(Map1(Many1, U2 \o U3), Text(Strs(<<a_, b_, c_, zh>>, 4))) EXCEPT !.ops = {"mat"}],
       [Grp0(Map1(Once, UBin(UBin(UK, UK), Map1(NotU, UK))), Text(One(AsciiCodes \o Thin(OtherCodes, 3, 1)))) EXCEPT !.ops = {"mat"}]>>

Conds == <<C0, CIdx(1), CIdx(2), CNot(b_), CErr(b_), CRx(A), CRx(Or(AA, AB)), CRx(NotP(B)), CRx(Then(A, Start)), CRx(End)>>
QUnits == <<Chr(a_), Set_(<<a_, b_>>), NotU(Chr(a_)), AlwaysU, NeverU>>
CountRanges == <<<<"u", 0, "u", 0>>, <<"i", 0, "u", 0>>, <<"i", 1, "u", 0>>, <<"i", 2, "u", 0>>, <<"x", 0, "u", 0>>,
                 <<"x", 1, "u", 0>>, <<"u", 0, "x", 0>>, <<"u", 0, "x", 1>>, <<"u", 0, "x", 3>>, <<"u", 0, "i", 0>>,
                 <<"u", 0, "i", 1>>, <<"u", 0, "i", 3>>, <<"i", 0, "x", 2>>, <<"i", 1, "x", 2>>, <<"i", 1, "x", 3>>,
                 <<"i", 2, "x", 2>>, <<"i", 3, "x", 2>>, <<"i", 1, "i", 1>>, <<"i", 1, "i", 2>>, <<"i", 2, "i", 3>>,
                 <<"i", 3, "i", 3>>, <<"i", 0, "i", 0>>, <<"x", 0, "i", 1>>, <<"x", 1, "i", 3>>, <<"x", 0, "x", 3>>,
                 <<"i", 2, "i", 1>>, <<"i", 4, "u", 0>>, <<"u", 0, "i", HUGE>>, <<"i", 1, "x", HUGE>>, <<"i", HUGE, "u", 0>>>>
(* a counted quantifier refuses an empty range when it is built *)
NonEmptyRange(r) == ~(r[1] # "u" /\ r[3] # "u" /\ (r[2] > r[4] \/ (r[2] = r[4] /\ ~(r[1] = "i" /\ r[3] = "i"))))
TimesAll(u, c) == Map1(LAMBDA r : TimesC(r[1], r[2], r[3], r[4], u, c), Keep(CountRanges, NonEmptyRange))
BtwPairs == <<<<0, 0>>, <<0, 1>>, <<0, 2>>, <<0, 3>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 2>>, <<2, 3>>, <<3, 3>>, <<2, 1>>,
              <<0, NoMax>>, <<1, NoMax>>, <<2, NoMax>>>>
BtwCPairs == <<<<0, NoMax>>, <<1, NoMax>>, <<0, 2>>, <<0, 3>>, <<1, 2>>, <<1, 3>>, <<2, 2>>, <<2, 3>>>>
BtwAll(u, c) == IF c.c = "none" THEN Map1(LAMBDA r : Btw(r[1], r[2], u), BtwPairs)
                ELSE Map1(LAMBDA r : BtwC(r[1], r[2], u, c), BtwCPairs)
QuantsOf(u, c) == <<OnceC(u, c), OptC(u, c), Many0C(u, c), Many1C(u, c)>> \o TimesAll(u, c) \o BtwAll(u, c)
NThens(U, c) == Map2(LAMBDA u, v : NThenC(u, v, c), U, U)
AllQuants(Us, Cs) == Flat(Map2(QuantsOf, Us, Cs)) \o Flat(Map1(LAMBDA c : NThens(Us, c), Cs))
LongA(n) == [x \in 1..n |-> a_]
G_P06 ==
  <<[Grp0(AllQuants(Sz(Thin(QUnits, 2, 1) \o <<QUnits[2]>>, QUnits), Conds), Sz(AB4, AB5)) EXCEPT !.offs = Sz("zero", "in")],
    [Grp0(AllQuants(<<Set_(<<a_, ea, em>>), NotU(Chr(zh))>>, <<C0, CIdx(3), CNot(em)>>), Uni(Sz(2, 3))) EXCEPT !.offs = "all"],
    [Grp0(AllQuants(<<Set_(<<a_, b_>>), NotU(Chr(a_))>>, <<C0, CIdx(2), CErr(255)>>), Byt(Sz(2, 3))) EXCEPT !.offs = "all"],
    [Grp0(AllQuants(<<Chr(a_)>>, <<C0>>), Text(Map1(LongA, <<5, 17, 33, 65, 130, 257, 300>>))) EXCEPT !.ops = {"mat"}],
    [Grp0(AllQuants(<<Chr(a_)>>, Sz(<<C0, CNot(b_)>>, Conds)), ABS(3)) EXCEPT !.pols = WS, !.ops = {"mat", "con"}],
    [Grp0(<<MA, Times("i", 256, "i", 257, Chr(a_)), Times("i", 257, "u", 0, Chr(a_)), Times("x", 256, "x", 300, Chr(a_)), Times("u", 0, "i", 255, Chr(a_)), Many0C(Chr(a_), CIdx(280)),
            Many1(NotU(Chr(b_)))>>, Text(<<LongA(255), LongA(256), LongA(257), LongA(300), [x \in 1..300 |-> ea]>>)) EXCEPT !.ops = {"mat", "con"}],
    (* beyond 16 bits *)
    [Grp0(<<MA, ZA, Times("i", 65536, "u", 0, Chr(a_)), Times("i", 65537, "x", 65539, Chr(a_)), Times("u", 0, "i", 65537, Chr(a_)), Times("i", 65601, "u", 0, Chr(a_))>>,
          <<[k |-> "t", cs |-> LongA(65600)], [k |-> "b", cs |-> Append(LongA(65600), b_)]>>) EXCEPT !.ops = {"mat"}]>>

RepElems == <<A, AB, W, Then(A, OB), Or(AB, A), OptP(AB), OA, Enclose(A, B, A), Sep2(A, B, 1, 2, TRUE), Irb(A, DSame),
              MapP(A, MTag(1)), Longest(A, AB), Rec(Or(Then(A, Self(0)), B)), Rep2(A, 1, 2), Collect(B, 1), End, Peek(A)>>
RepsOf(p) ==
    <<Collect(p, 0), Collect(p, 1), Collect(p, 2), Collect(p, 3), Collect(p, 4)>>
    \o Map1(LAMBDA r : Repeat(p, r[1], r[2], r[3], r[4]), Keep(CountRanges, LAMBDA r : r[4] # HUGE /\ r[2] # HUGE))
    \o Map1(LAMBDA r : Rep2(p, r[1], r[2]), Keep(BtwPairs, LAMBDA r : r[2] >= 0))
G_P07 ==
  <<[Grp0(Sound(Flat(Map1(RepsOf, RepElems))), Sz(AB4, Text(Strs(<<a_, b_>>, 6)))) EXCEPT !.ops = {"mat", "con"}, !.offs = Sz("zero", "in")],
    [Grp0(Sound(Flat(Map1(RepsOf, Thin(RepElems, Sz(3, 1), 2)))), AB4) EXCEPT !.ops = {"con"}, !.hds = <<Hds3[2], Hds3[3], Hds3[4], Hds3[5]>>],
    [Grp0(Sound(RepsOf(A)), Text(Map1(LongA, <<6, 9, 17, 33, 66, 130, 257>>))) EXCEPT !.ops = {"mat", "con"}],
    [Grp0(Sound(Flat(Map1(RepsOf, <<A, Then(A, B), OptP(AB)>>))), ABS(Sz(3, 4))) EXCEPT !.ops = {"mat", "con"}, !.pols = WS],
    [Grp0(<<Collect(A, 256), Collect(A, 257), Repeat(A, "i", 256, "i", 258), Repeat(A, "i", 257, "u", 0), Repeat(A, "u", 0, "x", 257), Repeat(A, "x", 256, "i", 257)>>,
          Text(<<LongA(255), LongA(256), LongA(257), LongA(260)>>)) EXCEPT !.ops = {"mat", "con"}],
    [Grp0(<<Collect(A, 65537), Repeat(A, "i", 65536, "x", 65538), Repeat(A, "u", 0, "i", 65537), Collect(A, 65601)>>, Text(<<LongA(65600)>>)) EXCEPT !.ops = {"mat"}]>>
  \o IF Q THEN <<>> ELSE
     <<[Grp0(Sound(Flat(Map1(RepsOf, Flat(Map1(LAMBDA p : <<Rep2(p, 1, 2), Collect(p, 2), Repeat(p, "i", 1, "i", 2)>>, RepElems))))), AB4)
         EXCEPT !.ops = {"mat", "con"}]>>

SepMins == <<0, 1, 2, 3>>
SepsOf(p, s) ==
    Flat(<<Map1(LAMBDA m : Sep(p, s, m, TRUE), SepMins), Map1(LAMBDA m : Sep(p, s, m, FALSE), SepMins),
           Map1(LAMBDA m : SepCol(p, s, m, TRUE), SepMins), Map1(LAMBDA m : SepCol(p, s, m, FALSE), SepMins),
           Map1(LAMBDA r : Sep2(p, s, r[1], r[2], TRUE), Keep(BtwPairs, LAMBDA r : r[2] >= 0)),
           Map1(LAMBDA r : Sep2(p, s, r[1], r[2], FALSE), Keep(BtwPairs, LAMBDA r : r[2] >= 0))>>)
SepElems == <<A, W, OA, Then(A, OB), AB, OptP(A), Sep(A, B, 1, FALSE), Or(AB, A), MapP(A, MTag(1))>>
SepSeps == <<Comma, Once(Chr(b_)), OptU(Chr(cm)), Then(Comma, OB), Lit(<<cm, cm>>), Peek(B), Then(OB, Comma)>>
SepOnces == Map3(SepOnce, SepElems, SepSeps, SepElems)
RECURSIVE Joined(_, _)
Joined(n, s) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<a_>> ELSE <<a_, s>> \o Joined(n - 1, s)
G_P08 ==
  <<[Grp0(Sound(Flat(Map2(SepsOf, Sz(Thin(SepElems, 2, 1), SepElems), Sz(Thin(SepSeps, 2, 1), SepSeps)))), ABC(Sz(3, 5)))
       EXCEPT !.ops = {"mat", "con"}],
    [Grp0(Sound(SepsOf(A, Comma) \o SepsOf(A, Then(Comma, OB)) \o SepsOf(W, Comma)), ABC(Sz(4, 6))) EXCEPT !.ops = {"mat", "con"}, !.hds = <<NoHd, Hds3[3]>>],
    [Grp0(Sound(SepsOf(A, Comma)), Text(Strs(<<a_, cm>>, Sz(7, 9)))) EXCEPT !.ops = {"mat", "con"}],
    [Grp0(SepOnces, ABC(Sz(3, 4))) EXCEPT !.ops = {"mat", "con"}],
    [Grp0(Sound(SepsOf(A, Comma)), Text(Map1(LAMBDA n : Joined(n, cm), <<9, 17, 33, 65, 130>>) \o Map1(LAMBDA n : Append(Joined(n, cm), cm), <<9, 17, 33>>)))
       EXCEPT !.ops = {"mat", "con"}],
    [Grp0(Flat(Map1(LAMBDA n : <<Sep(A, Comma, n, TRUE), Sep(A, Comma, n, FALSE), SepCol(A, Comma, n, TRUE), SepCol(A, Comma, n, FALSE)>>, <<255, 256, 257>>)),
          Text(Map1(LAMBDA n : Joined(n, cm), <<255, 256, 257, 260>>) \o <<Append(Joined(256, cm), cm)>>)) EXCEPT !.ops = {"mat"}],
    [Grp0(<<Sep(A, Comma, 257, TRUE), SepCol(A, Comma, 256, FALSE)>>, Text(<<Joined(258, cm)>>)) EXCEPT !.ops = {"con"}],
    [Grp0(Sound(SepsOf(A, Comma)), Text(Strs(<<a_, cm, sp>>, Sz(3, 5)))) EXCEPT !.ops = {"mat", "con"}, !.pols = WS, !.hds = <<NoHd, Hds3[3]>>]>>
  \o IF Q THEN <<>> ELSE
     <<[Grp0(<<Sep(A, Empty, 65537, TRUE), SepCol(A, Empty, 65537, FALSE), Sep(A, Empty, 65601, TRUE)>>, Text(<<LongA(65600)>>)) EXCEPT !.ops = {"mat"}]>>

Alts == <<A, AB, AA, MB, OB, Fail, End, Then(A, B), W, Rep2(A, 2, 2)>>
AltS == Sz(<<A, AB, MB, OB, Fail, Then(A, A)>>, Alts)
Tab3(w, l) == Map3(LAMBDA p, q, r : Arr(w, l, <<p, q, r>>), AltS, AltS, AltS)
Tab2(w, l) == Map2(LAMBDA p, q : Arr(w, l, <<p, q>>), AltS, AltS)
PTab3(w, l) == Map3(LAMBDA p, q, r : PArr(w, l, <<p, q, r>>, <<1, 2, 3>>), AltS, AltS, AltS)
PTab2(w, l) == Map2(LAMBDA p, q : PArr(w, l, <<p, q>>, <<7, 7>>), AltS, AltS)
Tab01(w, l) == <<Arr(w, l, <<>>), PArr(w, l, <<>>, <<>>)>> \o Map1(LAMBDA p : Arr(w, l, <<p>>), Alts)
               \o Map1(LAMBDA p : PArr(w, l, <<p>>, <<9>>), Alts)
Tab4(w, l) == <<Arr(w, l, <<Fail, A, AB, W>>), Arr(w, l, <<AB, Fail, AB, A>>), Arr(w, l, <<A, A, MA, AA>>),
                PArr(w, l, <<Fail, A, AB, W>>, <<4, 3, 2, 1>>), PArr(w, l, <<AB, AA, W, AB>>, <<4, 3, 2, 1>>),
                PArr(w, l, <<A, OB, MA, AA>>, <<4, 3, 2, 1>>)>>
Big(w, l) == IF w = "array" THEN <<>>
             ELSE <<Arr(w, l, <<Fail, Fail, Fail, Fail, Fail, Fail, Fail, A, AB, Fail, W>>),
                    PArr(w, l, <<AB, Fail, A, Fail, W, Fail, AA, Fail, B>>, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>)>>
TabsOf(l) == Flat(Map1(LAMBDA w : Tab01(w, l) \o Tab2(w, l) \o PTab2(w, l) \o Tab4(w, l) \o Big(w, l), <<"array", "slice", "vec">>))
TabsOf3(l) == Flat(Map1(LAMBDA w : Tab3(w, l) \o PTab3(w, l), <<"array", "slice", "vec">>))
Tests == <<FYes, FNo, FAt(0), FAt(1), FPk(a_), FPk(b_), FErr(a_)>>
AltC == <<A, AB, Then(A, B), Then(A, MapP(B, MTag(3))), Collect(A, 1), Sep(A, B, 2, FALSE), OptP(B)>>
G_P09 ==
  <<[Grp0(Map2(Or, Alts, Alts) \o Map1(OptP, Alts \o AltC) \o Map3(Branch, Tests, Alts, <<A, AB, MB, Fail>>), AB4)
       EXCEPT !.ops = {"mat", "con"}, !.offs = Sz("zero", "in"), !.er = TRUE],
    [Grp0(TabsOf(FALSE), Sz(AB3, AB4)) EXCEPT !.ops = {"mat", "con"}, !.er = TRUE],
    [Grp0(Thin(TabsOf3(FALSE), Sz(3, 1), 1), Sz(Text(Strs(<<a_, b_>>, 2)), AB4)) EXCEPT !.ops = {"con"}, !.er = TRUE],
    [Grp0(Map2(Or, AltC, AltC) \o Map1(OptP, AltC) \o Map3(Branch, <<FPk(a_), FErr(b_)>>, AltC, <<A, Then(A, B)>>)
          \o Map3(LAMBDA w, p, q : Arr(w, FALSE, <<p, q>>), <<"array", "slice", "vec">>, AltC, AltC)
          \o Map3(LAMBDA w, p, q : PArr(w, FALSE, <<p, q>>, <<5, 6>>), <<"array", "slice", "vec">>, AltC, AltC), AB3)
       EXCEPT !.ops = {"mat", "con"}, !.hds = Sz(<<NoHd, Hds3[2], Hds3[3], Hds3[4]>>, Hds3), !.er = TRUE],
    [Grp0(Map2(Or, AltC, AltC) \o Map1(OptP, AltC) \o Map3(LAMBDA w, p, q : Arr(w, FALSE, <<p, q>>), <<"array", "slice", "vec">>, AltC, <<A, AB>>),
          Text(Strs(<<a_, b_, sp>>, 3))) EXCEPT !.ops = {"mat", "con"}, !.pols = WS, !.er = TRUE]>>
G_P10 ==
  <<[Grp0(Map2(Longest, Alts \o AltC, Alts), AB4) EXCEPT !.ops = {"mat", "con"}, !.offs = Sz("zero", "in")],
    [Grp0(TabsOf(TRUE), Sz(AB3, AB4)) EXCEPT !.ops = {"mat", "con"}],
    [Grp0(Thin(TabsOf3(TRUE), Sz(2, 1), 1), Sz(AB3, AB4)) EXCEPT !.ops = {"con"}],
    [Grp0(Thin(TabsOf3(TRUE), Sz(2, 1), 2), Sz(Text(Strs(<<a_, b_>>, 2)), AB4)) EXCEPT !.ops = {"mat"}],
    [Grp0(Map2(Longest, AltC, AltC) \o Map3(LAMBDA w, p, q : Arr(w, TRUE, <<p, q>>), <<"array", "slice", "vec">>, AltC, AltC)
          \o Map3(LAMBDA w, p, q : PArr(w, TRUE, <<p, q>>, <<5, 6>>), <<"array", "slice", "vec">>, AltC, AltC), AB3)
       EXCEPT !.ops = {"con"}, !.hds = Sz(<<Hds3[2], Hds3[3], Hds3[4]>>, Hds3)],
    [Grp0(Map2(Longest, AltC, AltC) \o Map3(LAMBDA w, p, q : Arr(w, TRUE, <<p, q>>), <<"array", "slice", "vec">>, AltC, <<A, AB, W>>),
          Text(Strs(<<a_, b_, sp>>, 3))) EXCEPT !.ops = {"mat", "con"}, !.pols = WS]>>

Parts == <<A, B, OA, MB, AB, Peek(A), OptP(AB), Then(A, B), Collect(A, 1), End, Or(AB, A)>>
PartS == Sz(Thin(Parts, 2, 1) \o <<AB>>, Parts)
G_P11 ==
  <<[Grp0(Flat(<<Map2(Then, Parts, Parts), Map2(PrefixP, Parts, Parts), Map2(SuffixP, Parts, Parts)>>), AB4)
       EXCEPT !.ops = {"mat", "con"}, !.offs = Sz("zero", "in"), !.hds = Sz(<<NoHd>>, Hds3)],
    [Grp0(Map3(IfThen, PartS, PartS, PartS) \o Map3(SepOnce, PartS, PartS, PartS) \o Map3(Enclose, PartS, PartS, PartS), Sz(AB3, AB5))
       EXCEPT !.ops = {"mat", "con"}],
    [Grp0(Map3(IfThen, <<A, MB>>, PartS, PartS) \o Map3(SepOnce, <<A, MB>>, PartS, PartS) \o Map3(Enclose, PartS, <<A, MB>>, PartS)
          \o Map3(LAMBDA p, q, r : Then(Then(p, q), r), PartS, <<A, OB>>, PartS) \o Map3(LAMBDA p, q, r : Then(p, Then(q, r)), PartS, <<A, OB>>, PartS), AB3)
       EXCEPT !.ops = {"con"}, !.hds = <<Hds3[2], Hds3[3], Hds3[4]>>],
    [Grp0(Map3(IfThen, <<A, MB>>, <<A, B>>, <<A, AB>>) \o Map3(SepOnce, <<A, MB>>, <<A, B>>, <<A, AB>>)
          \o Map3(Enclose, <<A, MB>>, <<A, B>>, <<A, AB>>) \o Map2(Then, Parts, Parts), ABS(Sz(3, 4)))
       EXCEPT !.ops = {"mat", "con"}, !.pols = WS],
    \* blanks skipped before or after
    [Grp0(Flat(<<Map2(PrefixP, <<BlankU, BlankA>>, <<A, MA, OA, End, Lit(<<sp>>), Then(A, A)>>), Map2(LAMBDA x, p : SuffixP(p, x), <<BlankU, BlankA>>, <<A, MA, OA, Lit(<<sp>>), Then(A, A)>>),
           Map1(LAMBDA x : Then(SuffixP(A, x), A), <<BlankU, BlankA>>), Map1(LAMBDA x : Collect(PrefixP(x, A), 0), <<BlankU, BlankA>>),
           Map1(LAMBDA x : Collect(SuffixP(A, x), 2), <<BlankU, BlankA>>)>>), BlankT(3)) EXCEPT !.ops = {"mat", "con"}, !.offs = Sz("zero", "bnd")],
    [Grp0(Flat(<<Map1(LAMBDA p : PrefixP(BlankA, p), <<A, MA, OA, End>>), Map1(LAMBDA p : SuffixP(p, BlankA), <<A, MA, Lit(<<sp>>)>>)>>), BlankB(3))
      EXCEPT !.ops = {"mat", "con"}, !.offs = Sz("zero", "in")]>>

Lits == Map1(Lit, Strs(<<a_, b_>>, 3)) \o Map1(LAMBDA s : LitW(s, "own"), Strs(<<a_, b_>>, 3))
ULits == Map1(Lit, Strs(<<a_, ea, zh>>, 2)) \o Map1(LAMBDA s : LitW(s, "own"), Strs(<<a_, ea, em>>, 2))
BLits == Map1(Lit, Strs(<<a_, 0, 255>>, 3)) \o Map1(LAMBDA s : LitW(s, "own"), Strs(<<a_, 0, 255>>, 2))
Cons0 == Map1(Cons, <<0, 1, 2, 3, 4, 5, HUGE>>) \o <<ConsAll>>
Look(S) == Map1(Peek, S) \o Map1(NotP, S)
LookK == <<A, B, AB, OA, MA, Start, End, Fail, Empty, Then(A, B), Peek(A), NotP(A), Cons(2), ConsAll, Collect(A, 1), Or(AB, B)>>
G_P12 ==
  <<[Grp0(Lits, AB4) EXCEPT !.offs = "all", !.ops = {"mat", "raw"}],
    [Grp0(ULits, Uni(Sz(2, 3))) EXCEPT !.offs = "all", !.ops = {"mat", "raw"}],
    [Grp0(BLits, Bytes(Strs(<<a_, 0, 255>>, Sz(3, 4)))) EXCEPT !.offs = "all"],
    [Grp0(Cons0 \o Look(LookK) \o Look(Look(LookK)) \o <<Start, End, Empty, UnitP, Fail>>
          \o Map2(Then, <<A, OA, Cons(1), ConsAll, Start, Empty>>, <<Start, End, Peek(B), NotP(B), Cons(1), Cons(2), ConsAll, Empty, Fail>>), AB4)
        EXCEPT !.offs = "all", !.ops = {"mat", "raw", "con", "assert"}],
    [Grp0(Cons0 \o Look(LookK) \o <<Start, End, Empty, UnitP, Fail>>, Byt(Sz(2, 3))) EXCEPT !.offs = "all", !.ops = {"mat", "raw"}],
    [Grp0(Look(Thin(LookK, 2, 1)) \o <<Start, End, Empty, Fail, Cons(1), ConsAll, A>>, ABS(3)) EXCEPT !.offs = "in", !.pols = Pols],
    [Grp0(<<Lit(LongA(8)), Lit(LongA(16)), Lit(LongA(33)), Lit(Append(LongA(16), b_)), LitW(Append(LongA(32), b_), "own"), Cons(17), Cons(34)>>,
          Text(Map1(LongA, <<7, 8, 15, 16, 17, 32, 33, 34>>) \o Map1(LAMBDA n : Append(LongA(n), b_), <<7, 16, 32>>))) EXCEPT !.offs = "in"],
    [Grp0(<<Lit(LongA(256)), Lit(LongA(257)), Lit(LongA(300)), Lit(Append(LongA(256), b_)), LitW(Append(LongA(299), b_), "own"), Cons(255), Cons(256), Cons(257), Cons(300), ConsAll>>,
          Text(Map1(LongA, <<256, 257, 300>>) \o Map1(LAMBDA n : Append(LongA(n), b_), <<255, 256, 299>>)) \o Bytes(<<LongA(300)>>)) EXCEPT !.ops = {"mat", "con"}],
    [Grp0(<<Cons(65535), Cons(65536), Cons(65537), Cons(65600), Cons(65601), Cons(66000), Cons(131073), ConsAll>>, Text(<<LongA(65600)>>) \o Bytes(<<LongA(65600)>>)) EXCEPT !.ops = {"mat"}]>>
  \o IF Q THEN <<>> ELSE
     <<[Grp0(Map1(Lit, Strs(<<a_, b_>>, 5)), Text(Strs(<<a_, b_>>, 6))) EXCEPT !.offs = "all"],
       [Grp0(Look(L1), AB4) EXCEPT !.ops = {"mat", "assert"}, !.offs = "in"]>>

Maps == <<MId, MTag(7), MErr, MShort(0), MShort(1), MShort(2)>>
Prs == <<Then(A, B), Then(W, W), Then(A, A), SepOnce(A, B, A), SepOnce(OA, Comma, OA), IfThen(A, B, A), DThen(A, DSame), DThen(MA, DLen),
         Enclose(A, Then(OB, OB), A), Then(Empty, Empty), Then(Peek(A), Peek(A))>>
G_P13 ==
  <<[Grp0(Map2(MapP, <<A, MA, AB, OA, Then(A, B), Collect(A, 1), OptP(A), Or(AB, A)>>, Maps), Sz(AB3, AB5))
       EXCEPT !.ops = {"con"}, !.hds = <<NoHd, Hds3[2], Hds3[3]>>, !.er = TRUE, !.offs = "in"],
    [Grp0(Map2(MapP, Prs, <<MSel0, MSel1, MSelEq, MSelNeq>>), Sz(ABC(3), ABC(4))) EXCEPT !.ops = {"con"}, !.hds = <<NoHd, Hds3[3]>>, !.er = TRUE],
    [Grp0(Flat(<<Map2(LAMBDA p, m : Then(MapP(p, m), B), <<A, MA>>, Maps), Map2(LAMBDA p, m : Or(MapP(p, m), A), <<AB, MA>>, Maps),
                 Map2(LAMBDA p, m : OptP(MapP(p, m)), <<AB, MA>>, Maps), Map2(LAMBDA p, m : Collect(MapP(p, m), 1), <<AB, A>>, Maps),
                 Map2(LAMBDA m, n : MapP(MapP(MA, m), n), Maps, Maps), Map2(LAMBDA p, m : Sep(MapP(p, m), B, 1, TRUE), <<A, MA>>, Maps),
                 Map2(LAMBDA p, m : Longest(MapP(p, m), A), <<AB, MA>>, Maps), Map2(LAMBDA p, m : PrefixP(A, MapP(p, m)), <<B, MA>>, Maps),
                 Map2(LAMBDA p, m : Arr("array", TRUE, <<MapP(p, m), A>>), <<AB, MA>>, Maps)>>), Sz(AB3, AB5))
       EXCEPT !.ops = {"con"}, !.er = TRUE]>>

PPats == <<A, AB, OA, MA, Then(A, B), Then(A, Then(OB, A)), Or(AB, A), Collect(A, 1), Sep(A, B, 1, TRUE), OptP(A), Peek(A), End, Start,
           IfThen(A, B, A), Enclose(A, OB, A), Longest(A, AB), Rep2(A, 1, 2), Irb(A, DSame), Wrap("rc", Then(A, B)), Pat(Then(A, B)),
           Arr("array", TRUE, <<A, AB>>), Once(Chr(sp)), Then(OA, OB), Collect(Then(A, B), 0)>>
WrapNames ==
  <<"rx_into_ctor", "rx_box", "rx_rc", "rx_arc", "rx_cell", "rx_refcell", "rx_mutex", "rx_dynbox", "rx_dynbox_send",
    "rx_dynbox_sync", "rx_dynarc", "rx_dynarc_send", "rx_dynarc_sync", "rx_dynrc", "rx_dynrc_send", "boxdynregex",
    "rcdynregex", "as_ctor", "as_dyn_regex", "fnregex",
    "rc", "arc", "boxdyn", "arcdyn", "rcdyn", "into_box", "into_rc", "into_arc", "into_dyn", "into_dyn_arc",
    "into_dyn_rc", "dyn_box", "dyn_box_send", "dyn_box_sync", "dyn_arc", "dyn_arc_send", "dyn_arc_sync", "dyn_rc",
    "dyn_rc_send", "mutex", "into_mutex", "oncelock", "as_dyn_ctor", "cell", "refcell", "some", "into_cell",
    "into_refcell", "adapter", "none", "once_unset">>
PConds == <<CRx(A), CRx(B), CRx(Or(A, B)), CRx(Then(A, B)), CRx(NotP(B)), CRx(Lit(<<sp, a_>>)), CRx(End)>>
PolConds == Flat(<<Map1(LAMBDA c : Many1C(AlwaysU, c), PConds), Map1(LAMBDA c : OnceC(AlwaysU, c), PConds), Map1(LAMBDA c : BtwC(1, 3, AlwaysU, c), PConds),
                   Map1(LAMBDA c : TimesC("i", 0, "i", 2, NotU(Chr(b_)), c), PConds), Map1(LAMBDA c : Then(Many1C(Chr(a_), c), OB), PConds),
                   Map1(LAMBDA c : Collect(OnceC(Chr(a_), c), 1), PConds)>>)
Pas == <<<<SP, Empty>>, <<Empty, SP>>, <<SP, SP>>, <<Once(Chr(sp)), Empty>>, <<Empty, Once(Chr(sp))>>, <<OA, OB>>, <<A, B>>, <<Empty, Peek(A)>>,
          <<Start, End>>, <<Fail, Empty>>, <<Empty, Fail>>, <<Then(A, B), SP>>, <<RFail(1), Empty>>, <<Empty, RFail(1)>>>>
G_P16 ==
  <<[Grp0(PPats, ABS(Sz(4, 6))) EXCEPT !.ops = {"mat", "con"}, !.pols = Sz(Thin(Pols, 2, 1), Pols)],
    [Grp0(Thin(L1, Sz(3, 1), 2), ABS(Sz(3, 4))) EXCEPT !.ops = {"mat", "con"}, !.pols = WS],
    [Grp0(PPats, ABS(Sz(3, 4))) EXCEPT !.ops = {"pol"}, !.pa = Pas, !.offs = Sz("zero", "in")],
    [Grp0(Thin(PPats, 2, 1), ABS(3)) EXCEPT !.ops = {"pol", "raw", "leaf", "assert"}, !.pa = Sz(Thin(Pas, 4, 1), Pas), !.pols = WS, !.offs = "in"],
    [Grp0(Thin(PPats, 2, 2), ABS(3)) EXCEPT !.offs = "all", !.pols = Pols, !.ops = {"mat", "raw", "leaf", "assert"}],
    [Grp0(PPats, Bytes(Strs(<<a_, b_, sp>>, 3))) EXCEPT !.ops = {"mat", "con"}, !.pols = WS],
    \* every way of passing a pattern around, and conditions that look ahead through the policy
    [Grp0(Map2(Wrap, WrapNames, <<Then(A, B), MA>>), ABS(Sz(2, 3))) EXCEPT !.ops = {"mat", "con"}, !.pols = WS],
    [Grp0(PolConds, ABS(Sz(3, 4))) EXCEPT !.ops = {"mat", "con", "raw"}, !.pols = WS],
    \* contexts that skip blanks on their own account
    [Grp0(BlankLeaves, BlankT(3)) EXCEPT !.pols = Blanks, !.ops = {"mat", "con", "raw", "leaf", "assert"}, !.offs = Sz("zero", "bnd")],
    [Grp0(BlankLeaves, BlankB(3)) EXCEPT !.pols = <<<<BlankA>>>>, !.ops = {"mat", "con", "raw", "leaf", "assert"}, !.offs = Sz("zero", "in")],
    [Grp0(Map2(Then, <<A, OA>>, <<A, Lit(<<sp>>)>>) \o Map1(LAMBDA p : Collect(p, 0), <<A, Lit(<<sp, a_>>)>>), BlankT(3))
      EXCEPT !.pols = Blanks, !.ops = {"mat", "con"}],
    [Grp0(<<A, MA, Once(ClsU("whitespace"))>>, BlankT(2)) EXCEPT !.ops = {"pol"}, !.pols = Blanks, !.pa = <<<<BlankA, Empty>>, <<Empty, BlankU>>, <<BlankU, BlankA>>>>]>>
  \o IF Q THEN <<>> ELSE <<[Grp0(L2, ABS(4)) EXCEPT !.ops = {"mat", "con"}, !.pols = WS],
                           [Grp0(PPats, Text(Strs(<<a_, ea, sp, 12288>>, 4))) EXCEPT !.pols = <<<<Many0(ClsU("whitespace"))>>>>, !.offs = "bnd"]>>

DynFs == <<DSame, DLen, DPat(A), DPat(OB), DPat(Then(A, B)), DPat(Collect(A, 0)), DAdv(1, B), DAdv(0, A), DAdv(2, A), DErr(0), DErr(1), DCond(0, A),
           DCond(1, OB), DPat(Irb(A, DSame)), DPat(Fail), DPat(MapP(A, MTag(4)))>>
DynPs == <<A, MA, OA, AB, W, Then(A, B), Peek(A), Or(AB, A), Collect(A, 1), Irb(A, DSame)>>
DynDs == Keep(DynFs, LAMBDA f : f.f # "pat" \/ TRUE)
G_P17 ==
  <<[Grp0(Map2(Irb, DynPs, DynFs), AB4) EXCEPT !.ops = {"mat", "con"}, !.offs = Sz("zero", "in"), !.hds = Sz(<<NoHd, Hds3[2]>>, Hds3)],
    [Grp0(Map2(DThen, DynPs, DynFs \o <<DPat(DThen(A, DSame))>>), AB4) EXCEPT !.ops = {"con"}, !.offs = Sz("zero", "in"), !.hds = Sz(<<NoHd, Hds3[2], Hds3[3]>>, Hds3)],
    [Grp0(Flat(<<Map2(LAMBDA p, f : Then(Irb(p, f), B), DynPs, DynFs), Map2(LAMBDA p, f : Or(Irb(p, f), MA), DynPs, DynFs),
                 Map2(LAMBDA p, f : Sep(Irb(p, f), B, 0, TRUE), <<A, MA>>, DynFs), Map2(LAMBDA p, f : Collect(Then(A, Irb(p, f)), 0), <<A, MA>>, DynFs)>>), Sz(AB3, AB5))
       EXCEPT !.ops = {"mat", "con"}],
    [Grp0(Flat(<<Map2(LAMBDA p, f : Then(A, DThen(p, f)), DynPs, DynFs), Map2(LAMBDA p, f : Or(DThen(p, f), MA), DynPs, DynFs),
                 Map2(LAMBDA p, f : OptP(DThen(p, f)), DynPs, DynFs), Map2(LAMBDA p, f : Collect(DThen(p, f), 0), <<A, MA, AB>>, DynFs)>>), Sz(AB3, AB5))
       EXCEPT !.ops = {"con"}],
    [Grp0(Map2(Irb, DynPs, Thin(DynFs, 2, 1)), ABS(3)) EXCEPT !.ops = {"mat", "con"}, !.pols = WS],
    [Grp0(Map2(DThen, DynPs, Thin(DynFs, 2, 1)), ABS(3)) EXCEPT !.ops = {"con"}, !.pols = WS],
    [Grp0(Map2(Irb, <<Many1(NotU(Chr(a_))), OptU(AlwaysU)>>, <<DSame, DLen>>) , Uni(3)) EXCEPT !.ops = {"mat"}, !.offs = "bnd"]>>

(* recursive patterns *)
Recs ==
  <<Rec(Or(Then(A, Then(Self(0), B)), Lit(<<>>))),                   \* a^n b^n
    Rec(Or(Enclose(A, Self(0), B), Lit(<<>>))),
    Rec(Then(A, OptP(Self(0)))),                                     \* a+
    Rec(IfThen(A, B, Self(0))),                                      \* a (b a)*
    Rec(OptP(PrefixP(A, Self(0)))),
    Rec(Or(Then(A, Self(0)), B)),
    Rec(Longest(Then(A, Self(0)), AB)),
    Rec(Arr("array", FALSE, <<Then(A, Self(0)), B, Empty>>)),
    Rec(Enclose(A, Sep(Self(0), Comma, 0, TRUE), B)),                \* nested lists
    Rec(Enclose(A, SepCol(Self(0), Comma, 0, FALSE), B)),
    Rec(Enclose(A, Collect(Self(0), 0), B)),                         \* nested brackets
    Rec(Enclose(A, Sep2(Self(0), Comma, 0, 2, TRUE), B)),
    Rec(Then(A, Rec(Or(Then(B, Self(0)), OptP(PrefixP(A, Self(1))))))),   \* two levels
    Rec(Branch(FPk(a_), PrefixP(A, Self(0)), B)),
    Rec(SuffixP(OptP(PrefixP(A, Self(0))), B)),
    Rec(Or(PrefixP(A, MapP(Self(0), MTag(1))), B)),
    Rec(Then(Wrap("rc", A), OptP(Wrap("rc", Self(0))))),
    Rec(Then(A, OptP(PrefixP(Peek(A), Self(0))))),
    Rec(Or(Then(A, Irb(Self(0), DSame)), B)),
    Rec(Or(Then(A, Pat(Self(0))), B)),
    Rec(Then(Rep2(A, 0, 2), OptP(PrefixP(B, Self(0))))),
    Rec(Or(Enclose(A, Self(0), B), Or(Then(B, Then(Self(0), Self(0))), Or(Enclose(Comma, Self(0), Comma), Or(Then(SP1, Self(0)), AA))))),   \* many references
    Rec(Arr("vec", TRUE, <<Then(A, Self(0)), Then(B, Self(0)), Enclose(Comma, Self(0), Comma), Then(SP1, Self(0)), Then(Once(Chr(ea)), Self(0)), End>>)),
    Rec(Or(Then(A, Rec(Or(Then(B, Self(1)), Or(Then(A, Self(0)), B)))), Or(Then(B, Self(0)), Comma)))>>
RecIn(n) == Text(Strs(<<a_, b_, cm>>, n))
RECURSIVE Nest(_)
Nest(n) == IF n = 0 THEN <<>> ELSE <<a_>> \o Nest(n - 1) \o <<b_>>
G_P18 ==
  <<[Grp0(Recs, Text(Strs(<<a_, b_>>, Sz(6, 8)))) EXCEPT !.ops = {"mat", "con"}],
    [Grp0(Recs, RecIn(Sz(4, 6))) EXCEPT !.ops = {"mat", "con"}, !.hds = <<NoHd, Hds3[3]>>],
    [Grp0(Recs, Text(Map1(Nest, <<5, 9, 17, 33, 130>>) \o Map1(LongA, <<5, 17, 33, 60, 260>>))) EXCEPT !.ops = {"mat", "con"}],
    [Grp0(Recs, Text(Strs(<<a_, b_, sp>>, Sz(4, 6)))) EXCEPT !.ops = {"mat", "con"}, !.pols = WS],
    [Grp0(Map2(Then, <<A, OA>>, Recs) \o Map2(Or, Recs, <<A, Then(A, B)>>) \o Map1(LAMBDA p : Rep2(p, 1, 2), Recs), Text(Strs(<<a_, b_>>, Sz(4, 6)))) EXCEPT !.ops = {"mat", "con"}]>>

Wrapped == <<Then(A, B), MA, Sep(A, B, 2, TRUE), RFail(1), Then(A, RFail(1)), RAdv(2), OptP(AB), MapP(AB, MTag(5)), Irb(A, DSame),
             Collect(Then(A, OB), 1), Longest(A, AB)>>
WrapsIn(f(_)) == Map2(LAMBDA w, p : f(Wrap(w, p)), WrapNames, <<Then(A, B), MA, Then(A, RFail(1)), MapP(A, MTag(5))>>)
G_P19 ==
  <<[Grp0(Map2(Wrap, WrapNames, Sz(Wrapped, Wrapped)), Sz(AB3, AB5)) EXCEPT !.ops = {"mat", "con", "raw"}, !.hds = <<NoHd, Hds3[2], Hds3[3]>>, !.er = TRUE],
    [Grp0(Flat(<<WrapsIn(LAMBDA p : Then(p, B)), WrapsIn(LAMBDA p : Or(p, MA)), WrapsIn(LAMBDA p : Collect(Then(A, p), 0)),
                 WrapsIn(LAMBDA p : OptP(p)), WrapsIn(LAMBDA p : Wrap("rc", p)), WrapsIn(LAMBDA p : Peek(p)),
                 Map1(LAMBDA w : Rec(Or(Then(A, Wrap(w, Self(0))), B)),
                      (* a lock is not reentrant *)
                      Keep(WrapNames, LAMBDA w : w \notin {"mutex", "rx_mutex", "into_mutex"}))>>), Sz(AB3, AB5)) EXCEPT !.ops = {"mat", "con"}, !.er = TRUE],
    [Grp0(Map2(Wrap, WrapNames, Wrapped), Text(Strs(<<a_, b_, sp>>, Sz(2, 4)))) EXCEPT !.ops = {"mat", "con"}, !.pols = WS],
    [Grp0(Map2(LAMBDA w, u : Many1(WrapU(w, u)), UWraps, USmall) \o Map2(LAMBDA w, u : Btw(1, 2, WrapU(w, u)), UWraps, USmall)
          \o Map2(LAMBDA w, u : Once(WrapU(w, NotU(WrapU(w, u)))), UWraps, USmall), Sz(Uni(2), Uni(3))) EXCEPT !.ops = {"mat"}, !.offs = "bnd"],
    [Grp0(Map2(Wrap, WrapNames, <<Then(A, B), MA>>), Bytes(Strs(<<a_, b_>>, 3))) EXCEPT !.ops = {"mat", "con"}],
    \* a function of context and handler: construction only
    [Grp0(LET S == Map1(LAMBDA p : Wrap("func", p), Wrapped \o <<DThen(A, DLen)>>) IN
          Flat(<<S, Map1(LAMBDA p : Then(p, B), S), Map1(LAMBDA p : Or(p, MA), S), Map1(LAMBDA p : Collect(Then(A, p), 0), S), Map1(OptP, S),
                 <<Rec(Or(Then(A, Wrap("func", Self(0))), B))>>>>), AB3) EXCEPT !.ops = {"con"}, !.hds = <<NoHd, Hds3[2], Hds3[3]>>, !.er = TRUE]>>

(* text: every reported position is a boundary; ASCII text and bytes agree  *)
AsciiPats == Keep(L1, LAMBDA p : TRUE)
UX == Once(NotU(Chr(a_)))
UPats == <<UX, Many1(NotU(Chr(a_))), Many0(AlwaysU), OptU(NotU(Chr(ea))), Btw(1, 2, AlwaysU), Times("i", 2, "x", 4, AlwaysU), NThenP(AlwaysU, NotU(Chr(a_))),
           Lit(<<ea>>), Lit(<<ea, a_>>), LitW(<<zh>>, "own"), Lit(<<em, em>>), Start, End, Empty, Peek(UX), NotP(UX), Then(Lit(<<ea>>), UX),
           Or(Lit(<<ea, a_>>), UX), Longest(UX, Lit(<<ea, zh>>)), Collect(UX, 2), Rep2(UX, 1, 2), Sep(UX, A, 1, TRUE), Sep2(UX, A, 1, 2, FALSE),
           OptP(Then(UX, UX)), IfThen(UX, A, UX), Enclose(A, UX, Lit(<<ea>>)), Irb(UX, DSame), Irb(UX, DLen), SepOnce(UX, A, UX),
           Arr("vec", TRUE, <<UX, Lit(<<zh, em>>)>>), Many1C(AlwaysU, CIdx(3)), Many1C(AlwaysU, CRx(Lit(<<ea>>))), Rec(Or(Then(UX, Self(0)), A)),
           Once(RngI(233, 20013)), Many1(ClsU("alphabetic")), Once(Set_(<<ea, em>>))>>
Asc3 == Strs(<<a_, b_, cm>>, Sz(3, 4))
G_P20 ==
  <<[Grp0(UPats, Uni(Sz(3, 4))) EXCEPT !.offs = "all", !.ops = {"mat", "con"}],
    [Grp0(<<ConsAll, Then(UX, ConsAll), Then(OptP(UX), PrefixP(A, ConsAll)), Collect(Or(Then(A, ConsAll), UX), 0), Cons(0), Peek(ConsAll), NotP(ConsAll),
            SuffixP(UX, ConsAll), Irb(UX, DPat(ConsAll)), Or(Then(ConsAll, A), UX), Longest(UX, ConsAll), Sep(UX, ConsAll, 1, TRUE)>>, Uni(Sz(3, 4)))
       EXCEPT !.offs = "all", !.ops = {"mat", "con", "raw"}],
    [Grp0(Thin(L1, Sz(2, 1), 1), Text(Strs(<<a_, b_>>, 3)) \o Bytes(Strs(<<a_, b_>>, 3))) EXCEPT !.offs = "in", !.ops = {"mat", "con"}],
    [Grp0(UPats, Text(Asc3) \o Bytes(Asc3)) EXCEPT !.offs = "in", !.ops = {"mat"}],
    [Grp0(Thin(L2, Sz(6, 2), 1), Uni(2)) EXCEPT !.offs = "all"],
    [Grp0(UPats, Text(Strs(<<a_, ea, zh, sp, 12288>>, Sz(2, 3)))) EXCEPT !.offs = "all", !.pols = <<<<Many0(ClsU("whitespace"))>>>>]>>

(* everything, everywhere *)
WildPats == UPats \o Cons0 \o Recs \o Thin(L1, Sz(4, 1), 3) \o Thin(L2, Sz(16, 4), 5) \o <<Cons(2), ConsAll, Then(A, Cons(1)), Then(Cons(1), UX), Then(ConsAll, End),
             Collect(Cons(1), 0), Sep(Cons(1), A, 0, TRUE), Repeat(Cons(2), "i", 1, "u", 0), Irb(Cons(1), DLen), Peek(Cons(2)), Then(RAdv(3), A), Then(RAdv(1), Lit(<<a_>>)),
             Then(RAdv(2), Many0(AlwaysU)), Then(RAdv(9), End), Then(RAdv(9), Start), Then(RAdv(9), ConsAll), Then(RAdv(9), Cons(1)), Then(RAdv(9), Cons(0)), Then(RAdv(7), Lit(<<>>)),
             Then(RAdv(7), OA), Then(RAdv(7), Times("u", 0, "i", 2, Chr(a_))), Then(RAdv(7), NThenP(Chr(a_), Chr(b_)))>>
G_P25 ==
  <<[Grp0(WildPats, Uni(2)) EXCEPT !.offs = "all", !.ops = {"mat", "con", "raw", "leaf"}],
    [Grp0(Keep(WildPats, LAMBDA p : ~(p.t = "once" /\ p.u.u \in {"rng", "set"})), Bytes(Strs(<<a_, 0, 128, 255>>, 2))) EXCEPT !.offs = "all", !.ops = {"mat", "con"}],
    [Grp0(UPats \o Cons0 \o Recs, Uni(1) \o Bytes(Strs(<<a_, 255>>, 2))) EXCEPT !.offs = "far", !.ops = {"mat", "con", "raw", "assert"}],
    [Grp0(Thin(WildPats, Sz(3, 1), 1), Uni(2)) EXCEPT !.offs = "all", !.pols = <<<<Many0(NotU(Chr(a_)))>>>>],
    [Grp0(UPats \o Recs \o <<Cons(HUGE)>>, Text(<<LongA(200), [x \in 1..100 |-> ea]>>)) EXCEPT !.ops = {"mat", "con"}]>>
  \o IF Q THEN <<>> ELSE <<[Grp0(L1, Uni(3)) EXCEPT !.offs = "all", !.ops = {"mat", "con"}],
                           [Grp0(L2, Uni(2)) EXCEPT !.offs = "all", !.ops = {"mat", "con"}]>>

Leaves == <<A, OA, ZA, MA, Btw(1, 2, Chr(a_)), Times("i", 2, "i", 3, Chr(a_)), NThenP(Chr(a_), Chr(b_)), OnceC(Chr(a_), CErr(a_)), Many1C(Chr(a_), CErr(a_)),
            Times("i", 1, "u", 0, AlwaysU), TimesC("i", 1, "u", 0, AlwaysU, CErr(b_)), Btw(2, 3, Set_(<<a_, b_>>)), BtwC(1, 3, AlwaysU, CErr(b_)),
            Lit(<<a_, a_>>), LitW(<<a_, b_>>, "own"), Start, End, Fail, Cons(2), Peek(B), NotP(A), RFail(1), Peek(RFail(0)),
            Arr("array", FALSE, <<B, AB>>), Arr("slice", TRUE, <<AB>>), Arr("vec", FALSE, <<>>), PArr("array", TRUE, <<B>>, <<1>>),
            PArr("slice", FALSE, <<Fail>>, <<1>>), PArr("vec", TRUE, <<Fail, B>>, <<1, 2>>),
            Collect(A, 2), Repeat(A, "i", 2, "i", 3), Rep2(A, 2, 3), Sep(A, B, 2, TRUE), Sep2(A, B, 2, 3, TRUE), SepCol(A, B, 2, FALSE),
            Branch(FErr(a_), A, B), Irb(A, DErr(0)), Irb(A, DCond(1, A)), Wrap("none", A), Wrap("once_unset", A), OnceC(Chr(a_), CRx(RFail(0)))>>
G_P27 ==
  <<[Grp0(Leaves, AB4) EXCEPT !.offs = "all", !.ops = {"mat", "con"}, !.er = TRUE, !.hds = <<NoHd, Hds3[2]>>],
    [Grp0(Flat(<<Map2(Then, <<A, OA>>, Leaves), Map2(Or, Leaves, <<Fail, B>>), Map2(Or, <<Fail, AB>>, Leaves), Map2(Longest, Leaves, <<Fail, AB>>), Map2(Longest, <<Fail, AB>>, Leaves),
                 Map2(PrefixP, Leaves, <<B>>), Map2(SuffixP, <<OA>>, Leaves), Map2(LAMBDA p, x : Enclose(x, p, x), Leaves, <<A>>),
                 Map2(LAMBDA p, x : Enclose(x, OA, p), Leaves, <<A>>), Map1(LAMBDA p : IfThen(A, OA, p), Leaves), Map1(LAMBDA p : IfThen(A, p, B), Leaves),
                 Map1(LAMBDA p : SepOnce(A, p, B), Leaves), Map1(LAMBDA p : SepOnce(OA, OB, p), Leaves), Map1(Peek, Leaves), Map1(NotP, Leaves),
                 Map1(LAMBDA p : Rep2(p, 2, 2), Leaves), Map1(LAMBDA p : Sep(A, p, 2, FALSE), Leaves), Map1(LAMBDA p : Branch(FPk(a_), p, Fail), Leaves),
                 Map1(LAMBDA p : Irb(p, DSame), Leaves), Map1(LAMBDA p : Irb(A, DPat(p)), Leaves), Map1(Pat, Leaves), Map1(LAMBDA p : Wrap("rc", p), Leaves),
                 Map1(LAMBDA p : MapP(p, MShort(0)), Leaves), Map1(LAMBDA p : Then(OptP(p), B), Leaves), Map1(LAMBDA p : Arr("vec", FALSE, <<p, Fail>>), Leaves),
                 Map1(LAMBDA p : Arr("array", TRUE, <<p, End>>), Leaves), Map1(Rec, Leaves)>>), AB3)
       EXCEPT !.ops = {"mat", "con"}, !.er = TRUE, !.hds = Sz(<<NoHd>>, <<NoHd, Hds3[2], Hds3[3]>>)],
    [Grp0(D1 \o DThens(<<Then(A, B), OptP(A)>>), AB4) EXCEPT !.ops = {"con"}, !.er = TRUE, !.hds = <<NoHd, Hds3[2], Hds3[3]>>],
    [Grp0(Thin(L1, Sz(3, 1), 1) \o Thin(L2, Sz(8, 1), 1), AB3) EXCEPT !.ops = {"mat", "con"}, !.er = TRUE, !.hds = <<NoHd, Hds3[3]>>],
    [Grp0(Thin(Leaves, 2, 1), ABS(3)) EXCEPT !.ops = {"mat"}, !.er = TRUE, !.pols = Pols],
    [Grp0(Thin(Leaves, 2, 1), ABS(3)) EXCEPT !.ops = {"pol"}, !.er = TRUE, !.pa = Pas]>>

(* a cross-section of every construct, for reuse and build configurations *)
Mix == Flat(<<Leaves, Thin(L1, Sz(3, 1), 2), Thin(L2, Sz(10, 2), 3), UPats, Recs, Cons0, <<DThen(A, DSame), DThen(MA, DLen)>>>>)
MixM == Keep(Mix, RegexOk)
(* builders that move backwards *)
RS0 == RSet(0)  RS1 == RSet(1)
Backs == <<RS0, RSet(3), Then(AB, RS0), Then(A, RSet(2)), Then(RSet(2), RS0), Or(Then(A, RS0), B), Or(RS1, A), PrefixP(AB, RS1), PrefixP(RS1, AB),
           SuffixP(AB, RS0), SuffixP(RSet(2), RS1), IfThen(A, B, RS0), IfThen(A, RSet(2), RS0), SepOnce(A, B, RS0), SepOnce(A, RSet(2), RS1), Enclose(A, B, RS0),
           Enclose(A, RS0, A), OptP(Then(A, RS0)), Rep2(Then(A, RS0), 1, 2), Sep2(A, RS0, 1, 2, FALSE), Sep2(Then(AB, RS0), RS1, 0, 2, TRUE),
           Branch(FPk(a_), Then(A, RS0), RS1), MapP(Then(A, RS0), MTag(1)), Rec(Then(A, RS0)), Wrap("rc", Then(A, RS0)),
           Longest(Then(A, RS0), A), Longest(A, Then(A, RS0)), Arr("array", FALSE, <<B, Then(A, RS0)>>), PArr("vec", FALSE, <<AB, RS0>>, <<1, 2>>)>>
G_P23 ==
  <<[Grp0(MixM, AB3) EXCEPT !.ops = {"mat"}, !.er = TRUE],
    [Grp0(Mix, Sz(AB3, AB4)) EXCEPT !.ops = {"con"}, !.hds = <<NoHd, Hds3[3]>>, !.er = TRUE],
    [Grp0(Thin(MixM, Sz(4, 1), 1), Uni(2)) EXCEPT !.offs = "all", !.er = TRUE],
    [Grp0(Thin(MixM, Sz(4, 1), 2), ABS(3)) EXCEPT !.pols = WS, !.er = TRUE, !.ops = {"mat", "pol"}, !.pa = <<<<SP, Empty>>, <<OA, OB>>>>],
    [Grp0(Thin(MixM, Sz(4, 1), 3), Bytes(Strs(<<a_, b_, 255>>, 2))) EXCEPT !.er = TRUE, !.ops = {"mat", "con"}],
    [Grp0(Map1(Once, Thin(U1 \o U2, Sz(4, 1), 1)), Text(One(<<0, 10, 48, 65, 97, 98, ea, zh, em>>))) EXCEPT !.er = TRUE],
    [Grp0(L1, Text(<<<<a_, b_>>, <<a_, a_>>, <<b_, a_>>>>)) EXCEPT !.ops = {"con"}, !.hds = Sz(<<Hds3[2]>>, <<Hds3[2], Hds3[3], Hds3[4]>>), !.er = TRUE],
    [Grp0(Backs, Text(Strs(<<a_, b_>>, 3))) EXCEPT !.offs = "in", !.ops = {"con"}, !.hds = <<NoHd, Hds3[3]>>]>>
G_P22 == G_P23

FamilyOf(p) ==
  CASE p = "P01" -> G_P01 [] p = "P02" -> G_P02 [] p = "P03" -> G_P03 [] p = "P04" -> G_P04
    [] p = "P05" -> G_P05 [] p = "P06" -> G_P06 [] p = "P07" -> G_P07 [] p = "P08" -> G_P08
    [] p = "P09" -> G_P09 [] p = "P10" -> G_P10 [] p = "P11" -> G_P11 [] p = "P12" -> G_P12
    [] p = "P13" -> G_P13 [] p = "P16" -> G_P16 [] p = "P17" -> G_P17 [] p = "P18" -> G_P18
    [] p = "P19" -> G_P19 [] p = "P20" -> G_P20 [] p = "P22" -> G_P22 [] p = "P23" -> G_P23
    [] p = "P25" -> G_P25 [] p = "P27" -> G_P27
TheGroups == FamilyOf(Prop)
=============================================================================
