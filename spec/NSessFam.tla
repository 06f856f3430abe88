------------------------------ MODULE NSessFam ------------------------------
(***************************************************************************)
(* The session groups explored for each property.                          *)
(***************************************************************************)
EXTENDS NFamilies

SCtx(k, cs, pol, off) == [k |-> k, cs |-> cs, pol |-> pol, off |-> off]
S0(c) == [c |-> c, gs |-> <<>>, vs |-> <<>>, as |-> <<>>, pu |-> <<>>]
SG(ps, ins, ops, depth, obs) == [ps |-> ps, ins |-> ins, ops |-> ops, depth |-> depth, obs |-> obs, us |-> <<>>]
OneC(k, cs, off) == S0(<<SCtx(k, cs, <<>>, off)>>)
OneP(k, cs, pol, off) == S0(<<SCtx(k, cs, <<pol>>, off)>>)

(* ------------------------- cursor, views, guards ----------------------- *)
V4 == <<a_, ea, zh, b_>>           \* 1+2+3+1 bytes
V3 == <<a_, ea, b_>>
CursorAll == <<<<"set", 0>>, <<"set", 2>>, <<"set", 5>>, <<"set", 9>>, <<"inc", 1>>, <<"inc", 3>>, <<"dec", 1>>, <<"dec", 2>>,
               <<"reset">>, <<"resetw", <<b_, ea>>>>, <<"withdat", <<b_, b_, b_>>>>, <<"withoff", 1>>>>
ViewAll == <<<<"peek">>, <<"peekat", 0>>, <<"peekat", 1>>, <<"peekat", 2>>, <<"peekat", 7>>, <<"peekat", 8>>, <<"orig">>,
             <<"origat", 0>>, <<"origat", 2>>, <<"origat", 3>>, <<"origat", 7>>, <<"origat", 9>>,
             <<"origsub", 0, 1>>, <<"origsub", 1, 2>>, <<"origsub", 1, 1>>, <<"origsub", 2, 1>>, <<"origsub", 3, 4>>, <<"origsub", 3, 5>>,
             <<"origsub", 7, 0>>, <<"origsub", 8, 0>>, <<"origsub", 9, 1>>,
             <<"clone", 1>>, <<"cloneat", 0, 1>>, <<"cloneat", 1, 2>>, <<"cloneat", 2, 1>>, <<"cloneat", 3, 3>>, <<"cloneat", 7, 1>>, <<"cloneat", 9, 1>>>>
CurPats == <<Then(A, Once(Chr(ea))), Many1(NotU(Chr(a_))), W, Then(OA, B)>>
CurMats == <<<<"mat", 1>>, <<"mat", 2>>, <<"mat", 3>>, <<"ismat", 1>>, <<"assert", 2>>, <<"con", 2>>>>
GuardAll == <<<<"gnew">>, <<"gdrop">>, <<"ginc", 1>>, <<"greset">>, <<"gok">>, <<"gerr">>, <<"gmat", 1>>, <<"gmat", 3>>>>
GuardMore == <<<<"gpeek">>, <<"gpeekat", 3>>, <<"mat", 4>>, <<"set", 1>>, <<"inc", 1>>>>
G_P21 ==
  <<SG(CurPats, <<OneC("t", V4, 0), OneC("t", <<>>, 0), OneC("b", <<a_, 233, 0, b_>>, 1), OneP("t", <<sp, a_, sp, ea, b_>>, SP, 0)>>,
       CursorAll \o ViewAll \o CurMats, Sz(2, 3), "cur"),
    SG(CurPats, <<OneC("t", V4, 0), OneP("t", <<a_, sp, b_, ea>>, SP, 1)>>, <<<<"set", 3>>, <<"inc", 1>>, <<"dec", 1>>, <<"orig">>, <<"peek">>, <<"clone", 2>>,
       <<"resetw", <<b_, ea>>>>, <<"withdat", V3>>, <<"reset">>, <<"mat", 2>>>>, Sz(4, 5), "cur"),
    SG(CurPats, <<OneC("t", V3, 0), OneC("b", <<a_, 233, b_>>, 0), OneP("t", <<sp, a_, sp, ea, b_>>, SP, 1)>>, GuardAll, Sz(5, 7), "cur"),
    SG(CurPats, <<OneC("t", V3, 0)>>, <<<<"gnew">>, <<"gdrop">>, <<"gerr">>, <<"gok">>, <<"ginc", 1>>>>, Sz(7, 9), "cur"),
    SG(CurPats, <<OneC("t", V4, 0), OneC("b", <<a_, 233, b_>>, 0)>>, GuardAll \o GuardMore, Sz(4, 5), "cur")>>

(* ------------------------------- searching ----------------------------- *)
HChr(c) == [t |-> "chr", k |-> c]
SearchOpsOf == <<<<"find", 1>>, <<"findall", 1, 2>>, <<"findall", 1, 99>>, <<"seq", 1, 1>>, <<"seq", 1, 99>>,
                 <<"findw", 1, "std", HChr(b_)>>, <<"findallw", 1, "std", HChr(a_), 99>>, <<"findallw", 1, "empt", NoHd, 3>>,
                 <<"findw", 1, "two", NoHd>>, <<"findallw", 1, "over", NoHd, 99>>>>
SearchPats == <<A, AB, MA, ZA, OA, Many0(Chr(b_)), Then(A, OB), Lit(<<a_, b_, a_>>), Or(AB, B), Longest(A, Lit(<<a_, a_, b_>>)),
                Collect(AB, 1), Sep(A, B, 1, TRUE), End, Empty, Fail, Start, Then(Peek(B), X), Then(NotP(A), X),
                Rep2(A, 2, 3), Then(ZA, B), Btw(2, 3, Chr(a_)), Times("i", 2, "i", 2, Chr(a_)), Rec(Or(Then(A, Self(0)), B)), Irb(A, DSame)>>
UniSearch == <<UX, Once(Chr(ea)), Lit(<<ea, zh>>), Many1(NotU(Chr(a_))), Many0(AlwaysU), Then(UX, A), Lit(<<zh>>), End>>
SearchIns(k, ss) == Map1(LAMBDA s : OneC(k, s, 0), ss)
G_P14 ==
  Map1(LAMBDA p : SG(<<p>>, SearchIns("t", Strs(<<a_, b_>>, Sz(4, 6))), SearchOpsOf \o <<<<"set", 1>>>>, Sz(1, 2), "cur"), SearchPats)
  \o Map1(LAMBDA p : SG(<<p>>, SearchIns("t", Strs(<<a_, b_>>, Sz(3, 5))), SearchOpsOf \o <<<<"set", 1>>, <<"mat", 1>>, <<"set", 9>>>>, Sz(2, 3), "cur"), Thin(SearchPats, Sz(3, 1), 1))
  \o Map1(LAMBDA p : SG(<<p>>, SearchIns("t", Strs(<<a_, ea, zh>>, Sz(3, 4))), SearchOpsOf \o <<<<"set", 2>>>>, Sz(1, 2), "cur"), UniSearch)
  \o Map1(LAMBDA p : SG(<<p>>, SearchIns("b", Strs(<<a_, b_, 255>>, 3)), SearchOpsOf, Sz(1, 2), "cur"), Thin(SearchPats, 2, 1))
  \o Map1(LAMBDA p : SG(<<p>>, Map1(LAMBDA s : OneP("t", s, SP, 0), Strs(<<a_, b_, sp>>, Sz(4, 5))), SearchOpsOf, Sz(1, 2), "cur"), Thin(SearchPats, Sz(2, 1), 1))
  \o Map1(LAMBDA p : SG(<<p>>, Map1(LAMBDA s : OneP("t", s, Many1(Chr(sp)), 0), Strs(<<a_, b_, sp>>, Sz(3, 5))), SearchOpsOf, Sz(1, 2), "cur"), <<A, MA, ZA, AB>>)
  \o <<SG(<<MA>>, SearchIns("t", <<LongA(40), LongA(40) \o <<b_>> \o LongA(30), Flat([x \in 1..20 |-> <<a_, b_>>])>>), SearchOpsOf, 2, "cur"),
       SG(<<AB>>, SearchIns("t", <<Flat([x \in 1..20 |-> <<a_, b_>>]), Flat([x \in 1..9 |-> <<ea, a_, b_>>])>>), SearchOpsOf, 2, "cur")>>

(* ---------------------------- capture storage -------------------------- *)
Store(k, cs, vs, as) == [S0(<<SCtx(k, cs, <<>>, 0)>>) EXCEPT !.vs = vs, !.as = as]
E2 == <<<<>>, <<>>>>     \* two vector groups, or two slots
G_P15 ==
  <<SG(<<A, AB, MB, OA>>, <<Store("t", <<a_, a_, b_, b_>>, E2, <<>>), Store("t", <<a_, ea, b_>>, <<<<<<0, 1>>>>, <<>>, <<>>>>, <<>>), Store("b", <<a_, b_, 255>>, E2, <<>>)>>,
       <<<<"add", 1, 0, 1>>, <<"add", 1, 1, 2>>, <<"add", 2, 3, 0>>, <<"add", 2, 2, 9>>, <<"clr", 1>>, <<"clr", 2>>, <<"clr", 7>>, <<"rst">>, <<"cap", 1, 1>>, <<"cap", 2, 3>>,
         <<"cap", 1, 4>>, <<"resize", 3>>>>, Sz(3, 4), "store"),
    SG(<<A, AB, MB, OA>>, <<Store("t", <<a_, a_, b_, b_>>, E2, <<>>), Store("b", <<a_, a_, a_, b_>>, <<<<>>, <<>>, <<>>>>, <<>>)>>,
       <<<<"add", 1, 0, 1>>, <<"add", 2, 3, 1>>, <<"clr", 1>>, <<"cap", 1, 1>>, <<"cap", 2, 4>>, <<"cap", 2, 3>>, <<"rst">>>>, Sz(4, 6), "store"),
    SG(<<A, AB, MB, OA>>, <<Store("t", <<a_, a_, b_, b_>>, <<>>, <<E2, E2>>), Store("t", <<a_, ea, b_>>, <<>>, <<<<<<>>, <<1, 2>>>>, E2>>), Store("b", <<a_, b_, 255>>, <<>>, <<E2, E2>>),
                            Store("t", <<a_, a_, b_>>, <<>>, <<E2, E2>>)>>,
       <<<<"aset", 1, 1, 0, 1>>, <<"aset", 1, 2, 1, 2>>, <<"aset", 2, 2, 3, 0>>, <<"aset", 2, 1, 2, 9>>, <<"aclr", 1>>, <<"aclr", 2>>, <<"aclr", 7>>, <<"arst">>, <<"acap", 1, 2, 1>>,
         <<"acap", 2, 1, 3>>, <<"acap", 1, 1, 4>>>>, Sz(3, 4), "store"),
    SG(<<A, AB, MB, OA>>, <<Store("t", <<a_, a_, b_, b_>>, <<>>, <<<<<<>>, <<>>, <<>>>>>>), Store("t", <<a_, ea, b_>>, <<>>, <<<<<<0, 1>>, <<>>, <<1, 2>>>>>>)>>,
       <<<<"aset", 1, 1, 0, 1>>, <<"aset", 1, 2, 1, 2>>, <<"aset", 1, 3, 3, 1>>, <<"aclr", 1>>, <<"acap", 1, 2, 1>>, <<"acap", 1, 3, 3>>, <<"sset", 3>>>>, Sz(3, 5), "store"),
    (* many groups, and many spans of one *)
    SG(<<A, AB, MB, OA>>, <<Store("t", LongA(300), <<<<>>, [x \in 1..300 |-> <<x - 1, 1>>], [x \in 1..256 |-> <<0, x>>]>>, <<>>)>>,
       <<<<"add", 1, 0, 1>>, <<"add", 2, 1, 2>>, <<"clr", 2>>, <<"cap", 1, 1>>, <<"cap", 3, 4>>>>, 2, "store"),
    SG(<<A, AB, MB, OA>>, <<Store("t", LongA(3), [x \in 1..260 |-> IF x % 2 = 0 THEN <<<<0, x>>>> ELSE <<>>], <<>>)>>,
       <<<<"add", 1, 0, 1>>, <<"add", 256, 1, 2>>, <<"add", 257, 1, 2>>, <<"clr", 260>>, <<"clr", 261>>, <<"cap", 259, 1>>, <<"rst">>>>, 2, "store")>>

(* -------------------------------- reuse -------------------------------- *)
TwoC(a, b) == S0(<<SCtx("t", a, <<>>, 0), SCtx("t", b, <<>>, 0)>>)
On2(ops) == Map1(LAMBDA o : <<"on", 1, o>>, ops) \o Map1(LAMBDA o : <<"on", 2, o>>, ops)
ReusePats == <<Collect(Then(A, OB), 1), Sep(A, B, 1, TRUE), Repeat(A, "i", 1, "i", 2), Rep2(AB, 1, 2), Rec(Or(Then(A, Self(0)), B)),
               Rec(Or(Then(A, OptP(Self(0))), B)), Longest(A, Lit(<<a_, a_, b_>>)), Arr("vec", TRUE, <<A, AB>>), Then(MA, OptP(B)), Irb(A, DSame),
               Times("i", 1, "x", 3, Chr(a_)), Wrap("refcell", Then(A, B)), Wrap("mutex", MA), Wrap("cell", MA), Or(Then(A, Then(A, B)), A), MapP(A, MTag(3))>>
G_P22S ==
  Map1(LAMBDA p : SG(<<p>>, <<TwoC(<<a_, a_, b_>>, <<a_, b_, a_>>), TwoC(<<a_, b_, a_, a_>>, <<b_>>)>>,
                     On2(<<<<"mat", 1>>, <<"con", 1>>, <<"set", 1>>>>), Sz(4, 5), "curs"), ReusePats)
  \o Map1(LAMBDA p : SG(<<p>>, <<TwoC(<<a_, a_, b_, a_>>, <<a_, b_, a_>>)>>,
                     On2(<<<<"mat", 1>>, <<"find", 1>>, <<"findall", 1, 1>>, <<"reset">>>>), Sz(3, 4), "curs"), ReusePats)

(* --------------------------- prefix-guarded units ---------------------- *)
PU(us) == [S0(<<SCtx("t", <<>>, <<>>, 0)>>) EXCEPT !.pu = [x \in 1..Len(us) |-> <<[cnt |-> us[x][2], live |-> TRUE]>>]]
PG(us, ops, depth) == [SG(<<>>, <<PU(us)>>, ops, depth, "none") EXCEPT !.us = us]
PUnits == <<<<Chr(a_), 1, Chr(b_)>>, <<Chr(a_), 2, Chr(b_)>>, <<Chr(a_), 0, Chr(b_)>>, <<Set_(<<a_, b_>>), 3, Chr(a_)>>,
            <<AlwaysU, 1, Chr(ea)>>, <<NeverU, 1, AlwaysU>>, <<NotU(Chr(a_)), 2, Set_(<<a_, ea>>)>>>>
TestOps(j, cs) == Map1(LAMBDA c : <<"test", 1, j, c>>, cs)
G_P24 ==
  Flat(Map1(LAMBDA u : <<PG(<<u>>, TestOps(1, <<a_, b_, ea>>), Sz(6, 8)),
                         PG(<<u>>, TestOps(1, <<a_, b_>>) \o TestOps(2, <<a_, b_>>) \o <<<<"fork", 1, 1>>>>, Sz(5, 7)),
                         PG(<<u>>, TestOps(1, <<a_, b_>>) \o <<<<"many", 1, 1, <<a_, b_>>>>, <<"upto2", 1, 1, <<a_, a_, b_, b_>>>>, <<"fork", 1, 1>>,
                                    <<"many", 1, 2, <<b_, ea>>>>, <<"many", 1, 1, <<>>>>>>, Sz(4, 5))>>, PUnits))
  \o <<PG(<<<<Chr(a_), 257, Chr(b_)>>>>, TestOps(1, <<a_, b_>>) \o <<<<"many", 1, 1, LongA(256)>>, <<"many", 1, 1, LongA(255)>>, <<"many", 1, 1, LongA(257)>>, <<"fork", 1, 1>>, <<"many", 1, 2, <<a_, b_>>>>>>, 4)>>

(* ------------------ the same in every configuration -------------------- *)
Deep(S, k) == Map1(LAMBDA g : [g EXCEPT !.depth = k], S)
G_P23S == <<[G_P21[1] EXCEPT !.depth = 1]>> \o Map1(LAMBDA i : [G_P21[1] EXCEPT !.ins = <<i>>, !.depth = 2], SubSeq(G_P21[1].ins, 3, 3))
          \o Deep(<<G_P21[3]>>, 3) \o Deep(Thin(G_P14, 4, 1), 1) \o Deep(G_P15, 2) \o Deep(Thin(G_P24, 3, 1), 4)

SessOf(p) ==
    CASE p = "P14" -> G_P14 [] p = "P15" -> G_P15 [] p = "P21" -> G_P21 [] p = "P22" -> G_P22S [] p = "P24" -> G_P24 [] p = "P23" -> G_P23S
TheSess == SessOf(Prop)
=============================================================================
