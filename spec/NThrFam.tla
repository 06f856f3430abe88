------------------------------- MODULE NThrFam ------------------------------
(***************************************************************************)
(* The threads explored for each property.                                 *)
(***************************************************************************)
EXTENDS NFamilies

Op1(o, cs, hd) == <<[op |-> o, k |-> "t", cs |-> cs, off |-> 0, hd |-> hd]>>
OpAt(o, cs, f) == <<[op |-> o, k |-> "t", cs |-> cs, off |-> f, hd |-> NoHd]>>
OpB(o, cs) == <<[op |-> o, k |-> "b", cs |-> cs, off |-> 0, hd |-> NoHd]>>
C(cs) == Op1("con", cs, NoHd)
M(cs) == Op1("mat", cs, NoHd)
TG(ps, as) == [ps |-> ps, as |-> as, cell |-> FALSE]
TC(ps, as) == [ps |-> ps, as |-> as, cell |-> TRUE]

aab == <<a_, a_, b_>>  ab == <<a_, b_>>  aa == <<a_, a_>>  b == <<b_>>  aaab == <<a_, a_, a_, b_>>

(* recursion: depth differs between the threads, so that one is inside     *)
(* while another enters, and one fails while another goes on               *)
TRecs ==
  <<Rec(Or(Then(A, Self(0)), B)),
    Rec(Then(A, OptP(Self(0)))),
    Rec(Branch(FPk(a_), PrefixP(A, Self(0)), B)),
    Rec(Or(PrefixP(A, MapP(Self(0), MTag(1))), B)),
    Rec(Or(Enclose(A, Self(0), B), Lit(<<>>))),
    Rec(Longest(Then(A, Self(0)), AB)),
    Rec(Enclose(A, Collect(Self(0), 0), B)),
    Rec(Enclose(A, Sep(Self(0), Comma, 0, TRUE), B)),
    Rec(Or(Then(A, Irb(Self(0), DSame)), B)),
    Rec(Then(A, Rec(Or(Then(B, Self(0)), OptP(PrefixP(A, Self(1)))))))>>
TRecLocks == <<Rec(Or(Then(Wrap("mutex", A), Self(0)), B)), Rec(Then(Wrap("rx_mutex", A), OptP(Self(0)))),
               Rec(Or(PrefixP(A, Self(0)), Wrap("into_mutex", B)))>>
Pair2 == <<<<C(aab), C(ab)>>, <<C(ab), C(aa)>>, <<C(aab), C(aab)>>, <<C(b), C(aaab)>>, <<C(aa), C(<<>>)>>,
           <<C(aab), OpAt("con", aaab, 1)>>, <<M(aab), C(aab)>>, <<C(aab), Op1("con", aab, Hds3[2])>>,
           <<C(<<a_, a_, b_, b_>>), C(<<a_, b_, a_, b_>>)>>,
           <<C(b) \o C(ab), C(ab)>>, <<C(ab) \o C(aa), C(b) \o C(ab)>>>>
Three == <<<<C(ab), C(b), C(ab)>>, <<C(ab), C(aa), C(b)>>, <<C(b), M(ab), C(ab)>>>>
Long3 == <<<<C(aab), C(ab), C(aab)>>, <<C(aab), C(aaab)>>, <<C(aaab) \o C(b), C(aaab)>>, <<C(b), C(ab), C(b), C(ab)>>>>

G_T18 == <<TG(TRecs, Pair2 \o Three), TG(TRecLocks, Pair2)>> \o Sz(<<>>, <<TG(TRecs \o TRecLocks, Long3)>>)

(* everything that holds a pattern and may be shared *)
TShare ==
  <<Then(A, OptP(B)), Collect(A, 1), Sep(A, OptP(B), 1, TRUE), Rep2(A, 1, 2), Repeat(A, "i", 1, "i", 2), Or(Then(A, B), A),
    Longest(A, Then(A, B)), Arr("vec", TRUE, <<A, Then(A, B)>>), Arr("array", FALSE, <<Then(A, B), A>>), Irb(A, DSame),
    Branch(FPk(a_), Then(A, B), B), IfThen(A, B, A), MapP(Then(A, B), MTag(2)), MapP(Then(A, B), MSel1), Times("i", 1, "x", 3, Chr(a_)), Then(MA, OptP(B)),
    SepCol(A, B, 1, FALSE), Enclose(A, OptP(A), B)>>
TWraps == <<"arc", "arcdyn", "into_arc", "into_dyn_arc", "dyn_arc_sync", "oncelock", "rx_arc", "rx_dynarc_sync", "adapter", "as_ctor",
            "mutex", "rx_mutex", "into_mutex", "dyn_box_sync", "some">>
SharePairs == <<<<C(aab), C(ab)>>, <<C(ab), M(ab) \o C(aa)>>, <<C(aab), Op1("con", aab, Hds3[2])>>, <<C(ab), C(b)>>, <<OpB("con", ab), C(ab)>>>>
TLocked == <<Wrap("mutex", Then(A, OptP(B))), Collect(Wrap("mutex", A), 1), Or(Wrap("rx_mutex", AB), A), Then(A, Wrap("into_mutex", OptP(B))),
             Longest(Wrap("mutex", A), AB), MapP(Wrap("mutex", AB), MTag(1))>>
G_T22 == <<TG(TLocked, SharePairs), TG(TShare, SharePairs \o <<<<C(ab), C(b), C(b)>>>>), TG(<<DThen(A, DLen), DThen(A, DPat(B))>>, <<<<C(aab), C(ab)>>, <<C(ab), C(b), C(ab)>>>>)>>
         \o Sz(<<>>, <<TG(TShare, Long3)>>)
G_T19 == <<TG(Map2(Wrap, TWraps, <<Then(A, B), MA, Collect(A, 1)>>), SharePairs \o <<<<C(ab), C(aa), C(ab)>>>>),
           TG(<<Then(A, Wrap("mutex", Then(A, B))), Collect(Wrap("mutex", A), 1), Or(Wrap("rx_mutex", AB), A), OptP(Wrap("into_mutex", Then(A, B)))>>, SharePairs),
           TC(<<Then(A, B), MA, Or(AB, A)>>, <<<<C(ab) \o C(ab), C(ab)>>, <<M(ab) \o M(ab) \o M(ab), M(b) \o M(ab)>>, <<C(aa) \o M(ab), C(ab) \o C(ab)>>>>)>>

ThreadsOf(p) == CASE p = "P18" -> G_T18 [] p = "P19" -> G_T19 [] p = "P22" -> G_T22
TheThreads == ThreadsOf(Prop)
=============================================================================
