------------------------------ MODULE NSession ------------------------------
(***************************************************************************)
(* Histories of operations on contexts, guards, searches, span stores and  *)
(* prefix-guarded units.  Every operation of the API is one step; a step   *)
(* is appended to the history together with what it must return and what   *)
(* must be observable afterwards.  Complete histories are printed as JSON  *)
(* and performed on the implementation, step by step.                      *)
(***************************************************************************)
EXTENDS NSem, TLC, Json, FiniteSets

CONSTANTS Sess,        \* sequence of session groups, see NSessFam
          Emit

VARIABLES gi, ii, st, hist
vars == <<gi, ii, st, hist>>

(***************************************************************************)
(* A group: ps patterns (operations refer to them by index), ins initial   *)
(* states, ops operations (tuples), depth, obs which observation.          *)
(* The state:                                                              *)
(*   c   contexts: [k, cs, pol, off]       gs  guards: <<begin, reported>> *)
(*   vs  vector store: spans per group     as  array store: slots per group*)
(*   pu  prefix units: [cnt, live]                                         *)
(***************************************************************************)
Grp == Sess[gi]
Ctx1(k, cs, pol, off) == [k |-> k, cs |-> cs, pol |-> pol, off |-> off]
St0(c) == [c |-> c, gs |-> <<>>, vs |-> <<>>, as |-> <<>>, pu |-> <<>>]

Cxt(c) == MkCtx(c.k, c.cs, c.pol, NoHd)
CxtH(c, hd) == MkCtx(c.k, c.cs, c.pol, hd)

Oob == "oob"
View(cx, o) == IF Valid(cx, o) THEN Codes(cx, o, cx.n) ELSE Oob
Sub(cx, o, l) == IF Valid(cx, o) /\ Valid(cx, o + l) THEN Codes(cx, o, o + l) ELSE Oob
RECURSIVE PeekFrom(_, _, _)
PeekFrom(cx, o, p) == IF p >= cx.n THEN <<>>
                      ELSE <<<<p - o, Item(cx, p)>>>> \o PeekFrom(cx, o, Next1(cx, p))
Peeks(cx, o) == IF Valid(cx, o) THEN PeekFrom(cx, o, o) ELSE Oob

MRet(r) == <<r.ok, r.b, r.n, r.e>>
CRet(r) == <<r.ok, r.v, r.h, r.e>>
Off(s, o) == [s EXCEPT !.c[1].off = o]
R(s, ret) == [en |-> TRUE, st |-> s, ret |-> ret]
No == [en |-> FALSE, st |-> <<>>, ret |-> <<>>]

(***************************************************************************)
(* Searching.  fn decides on the outcome of an attempt, hd may reject.     *)
(***************************************************************************)
Decide(fn, r) ==    \* [take, off]
    CASE fn = "std"  -> IF r.ok /\ r.n > 0 THEN [take |-> TRUE, off |-> r.off] ELSE [take |-> FALSE, off |-> r.off + 1]
      [] fn = "seq"  -> IF r.ok /\ r.n > 0 THEN [take |-> TRUE, off |-> r.off] ELSE [take |-> FALSE, off |-> -1]
      [] fn = "empt" -> IF r.ok THEN [take |-> TRUE, off |-> IF r.n > 0 THEN r.off ELSE r.off + 1]
                        ELSE [take |-> FALSE, off |-> r.off + 1]
      [] fn = "two"  -> IF r.ok /\ r.n > 0 THEN [take |-> TRUE, off |-> r.off] ELSE [take |-> FALSE, off |-> r.off + 2]
      [] fn = "over" -> IF r.ok /\ r.n > 0 THEN [take |-> TRUE, off |-> r.b + 1] ELSE [take |-> FALSE, off |-> r.off + 1]
RECURSIVE FindLoop(_, _, _, _, _)
FindLoop(cx, p, fn, off, h) ==     \* [ok, v, off, h]
    IF off >= cx.n THEN [ok |-> FALSE, v |-> <<>>, off |-> off, h |-> h]
    ELSE LET r == Mat(cx, p, off, h)
             d == Decide(fn, r)
             o2 == IF d.off = -1 THEN cx.n ELSE d.off
         IN IF ~d.take THEN FindLoop(cx, p, fn, o2, r.h)
            ELSE LET v == Handle(cx, [r EXCEPT !.off = o2])
                 IN IF v.ok THEN [ok |-> TRUE, v |-> v.v, off |-> o2, h |-> v.h]
                    ELSE FindLoop(cx, p, fn, o2, v.h)
RECURSIVE FindAll(_, _, _, _, _, _, _)
FindAll(cx, p, fn, off, h, n, acc) ==
    IF n = 0 THEN [v |-> acc, off |-> off, h |-> h]
    ELSE LET f == FindLoop(cx, p, fn, off, h)
         IN IF f.ok THEN FindAll(cx, p, fn, f.off, f.h, n - 1, Append(acc, f.v))
            ELSE [v |-> acc, off |-> f.off, h |-> f.h]

(***************************************************************************)
(* Operations.                                                             *)
(***************************************************************************)
Room(s, o) == o <= Cxt(s.c[1]).n + 2
GTop(s) == s.gs[Len(s.gs)]
Pop(s) == [s EXCEPT !.gs = SubSeq(s.gs, 1, Len(s.gs) - 1)]
PatN(n) == Grp.ps[n]
Report(s) == [s EXCEPT !.gs[Len(s.gs)] = <<@[1], TRUE>>]
MatC(s, n) == Mat(Cxt(s.c[1]), PatN(n), s.c[1].off, <<>>)

CursorOp(s, o) ==
    CASE o[1] = "set"  -> R(Off(s, o[2]), <<>>)
      [] o[1] = "inc"  -> IF Room(s, s.c[1].off + o[2]) THEN R(Off(s, s.c[1].off + o[2]), <<>>) ELSE No
      [] o[1] = "dec"  -> IF o[2] <= s.c[1].off THEN R(Off(s, s.c[1].off - o[2]), <<>>) ELSE No
      [] o[1] = "reset" -> R(Off(s, 0), <<>>)
      [] o[1] = "resetw" -> R([s EXCEPT !.c[1].cs = o[2], !.c[1].off = 0], <<>>)
      [] o[1] = "withdat" -> R([s EXCEPT !.c[1].cs = o[2]], <<>>)
      [] o[1] = "withoff" -> R(Off(s, o[2]), <<>>)

ViewOp(s, o) ==
    LET cx == Cxt(s.c[1])  off == s.c[1].off IN
    CASE o[1] = "peek"   -> R(s, Peeks(cx, off))
      [] o[1] = "peekat" -> R(s, Peeks(cx, o[2]))
      [] o[1] = "orig"   -> R(s, View(cx, off))
      [] o[1] = "origat" -> R(s, View(cx, o[2]))
      [] o[1] = "origsub" -> R(s, Sub(cx, o[2], o[3]))
      (* a clone is a context of its own; the pattern is matched on it *)
      [] o[1] = "clone"  -> LET r == MatC(s, o[2]) IN R(s, <<MRet(r), r.off, View(cx, 0)>>)
      [] o[1] = "cloneat" -> IF Valid(cx, o[2])
                             THEN LET c2 == SubCtx(cx, o[2])
                                      r == Mat(c2, PatN(o[3]), 0, <<>>)
                                  IN R(s, <<MRet(r), r.off, View(c2, 0)>>)
                             ELSE R(s, Oob)

MatchOp(s, o) ==
    LET cx == Cxt(s.c[1])  off == s.c[1].off IN
    CASE o[1] = "mat"    -> LET r == MatC(s, o[2]) IN R(Off(s, r.off), MRet(r))
      [] o[1] = "ismat"  -> LET r == MatC(s, o[2]) IN R(Off(s, r.off), r.ok)
      [] o[1] = "assert" -> LET r == MatC(s, o[2]) IN R(s, r.ok)
      [] o[1] = "con"    -> LET r == Con(cx, PatN(o[2]), off, <<>>) IN R(Off(s, r.off), CRet(r))
      [] o[1] = "find"   -> LET r == FindLoop(cx, PatN(o[2]), "std", off, <<>>)
                            IN R(Off(s, r.off), IF r.ok THEN <<r.v>> ELSE <<>>)
      [] o[1] = "findall" -> LET r == FindAll(cx, PatN(o[2]), "std", off, <<>>, o[3], <<>>) IN R(Off(s, r.off), r.v)
      [] o[1] = "seq"    -> LET r == FindAll(cx, PatN(o[2]), "seq", off, <<>>, o[3], <<>>) IN R(Off(s, r.off), r.v)
      [] o[1] = "findw"  -> LET r == FindLoop(CxtH(s.c[1], o[4]), PatN(o[2]), o[3], off, <<>>)
                            IN R(Off(s, r.off), <<IF r.ok THEN <<r.v>> ELSE <<>>, r.h>>)
      [] o[1] = "findallw" -> LET r == FindAll(CxtH(s.c[1], o[4]), PatN(o[2]), o[3], off, <<>>, o[5], <<>>)
                              IN R(Off(s, r.off), <<r.v, r.h>>)

GuardOp(s, o) ==
    IF o[1] = "gnew" THEN IF Len(s.gs) < 2 THEN R([s EXCEPT !.gs = Append(s.gs, <<s.c[1].off, FALSE>>)], <<>>) ELSE No
    ELSE IF s.gs = <<>> THEN No
    ELSE LET g == GTop(s) IN
      CASE o[1] = "gdrop"  -> R(IF g[2] THEN Off(Pop(s), g[1]) ELSE Pop(s), <<>>)
        [] o[1] = "ginc"   -> IF Room(s, s.c[1].off + o[2]) THEN R(Off(s, s.c[1].off + o[2]), <<g[1], o[2]>>) ELSE No
        [] o[1] = "greset" -> R(Off(s, g[1]), <<>>)
        [] o[1] = "gok"    -> R(s, TRUE)
        [] o[1] = "gerr"   -> R(Report(s), FALSE)
        [] o[1] = "gmat"   -> LET r == MatC(s, o[2])
                              IN R(IF r.ok THEN Off(s, r.off) ELSE Report(Off(s, r.off)), MRet(r))
        [] o[1] = "gpeek"  -> R(s, Peeks(Cxt(s.c[1]), s.c[1].off))
        [] o[1] = "gpeekat" -> R(s, Peeks(Cxt(s.c[1]), o[2]))

StoreOp(s, o) ==
    CASE o[1] = "add" -> R([s EXCEPT !.vs[o[2]] = Append(@, <<o[3], o[4]>>)], <<>>)
      [] o[1] = "clr" -> R(IF o[2] <= Len(s.vs) THEN [s EXCEPT !.vs[o[2]] = <<>>] ELSE s, <<>>)
      [] o[1] = "rst" -> R([s EXCEPT !.vs = [x \in 1..Len(s.vs) |-> <<>>]], <<>>)
      [] o[1] = "cap" -> LET r == MatC(s, o[3])
                         IN R(IF r.ok THEN [Off(s, r.off) EXCEPT !.vs[o[2]] = Append(@, <<r.b, r.n>>)] ELSE Off(s, r.off), MRet(r))
      [] o[1] = "resize" -> R([s EXCEPT !.vs = [x \in 1..o[2] |-> <<>>]], <<>>)
      [] o[1] = "aset" -> R([s EXCEPT !.as[o[2]][o[3]] = <<o[4], o[5]>>], <<>>)
      [] o[1] = "aclr" -> R(IF o[2] <= Len(s.as) THEN [s EXCEPT !.as[o[2]] = [x \in 1..Len(@) |-> <<>>]] ELSE s, <<>>)
      [] o[1] = "arst" -> R([s EXCEPT !.as = [y \in 1..Len(s.as) |-> [x \in 1..Len(s.as[y]) |-> <<>>]]], <<>>)
      [] o[1] = "acap" -> LET r == MatC(s, o[4])
                          IN R(IF r.ok THEN [Off(s, r.off) EXCEPT !.as[o[2]][o[3]] = <<r.b, r.n>>] ELSE Off(s, r.off), MRet(r))
      [] o[1] = "sset" -> R(Off(s, o[2]), <<>>)

(* a unit of Grp.us: <<prefix, count, body>>; pu: its instances *)
Test(u, x, c) == IF ~x.live THEN [x |-> x, r |-> FALSE]
                 ELSE IF x.cnt = 0 THEN [x |-> x, r |-> UM(u[3], c)]
                 ELSE [x |-> [cnt |-> x.cnt - 1, live |-> UM(u[1], c)], r |-> UM(u[1], c)]
RECURSIVE WSum(_, _)
WSum(cs, n) == IF n = 0 THEN 0 ELSE WSum(cs, n - 1) + Width(cs[n])
RECURSIVE TestRun(_, _, _, _, _)   \* items accepted from the front of cs, at most mx
TestRun(u, x, cs, mx, n) == IF n = mx \/ n >= Len(cs) THEN [x |-> x, n |-> n]
                            ELSE LET t == Test(u, x, cs[n + 1])
                                 IN IF t.r THEN TestRun(u, t.x, cs, mx, n + 1) ELSE [x |-> t.x, n |-> n]
PrefixOp(s, o) ==
    LET u == Grp.us[o[2]] IN
    CASE o[1] = "test"  -> IF o[3] <= Len(s.pu[o[2]])
                           THEN LET t == Test(u, s.pu[o[2]][o[3]], o[4]) IN R([s EXCEPT !.pu[o[2]][o[3]] = t.x], t.r)
                           ELSE No
      [] o[1] = "fork"  -> IF o[3] <= Len(s.pu[o[2]]) /\ Len(s.pu[o[2]]) < 3
                           THEN R([s EXCEPT !.pu[o[2]] = Append(@, @[o[3]])], <<>>)
                           ELSE No
      (* zero-or-more of the unit over some text: <<unit, instance, text>> *)
      [] o[1] = "many"  -> IF o[3] <= Len(s.pu[o[2]])
                           THEN LET t == TestRun(u, s.pu[o[2]][o[3]], o[4], Len(o[4]), 0)
                                IN R([s EXCEPT !.pu[o[2]][o[3]] = t.x], WSum(o[4], t.n))
                           ELSE No
      [] o[1] = "upto2" -> IF o[3] <= Len(s.pu[o[2]])
                           THEN LET t == TestRun(u, s.pu[o[2]][o[3]], o[4], 2, 0)
                                IN R([s EXCEPT !.pu[o[2]][o[3]] = t.x], WSum(o[4], t.n))
                           ELSE No

(* an operation on context j of several *)
Swap(s, j) == [s EXCEPT !.c[1] = s.c[j], !.c[j] = s.c[1]]
CursorOps == {"set", "inc", "dec", "reset", "resetw", "withdat", "withoff"}
ViewOps == {"peek", "peekat", "orig", "origat", "origsub", "clone", "cloneat"}
MatchOps == {"mat", "ismat", "assert", "con"}
SearchOps == {"find", "findall", "seq", "findw", "findallw"}
GuardOps == {"gnew", "gdrop", "ginc", "greset", "gok", "gerr", "gmat", "gpeek", "gpeekat"}
StoreOps == {"add", "clr", "rst", "cap", "resize", "aset", "aclr", "arst", "acap", "sset"}
PrefixOps == {"test", "fork", "many", "upto2"}

Apply1(s, o) ==
    CASE o[1] \in CursorOps -> CursorOp(s, o)
      [] o[1] \in ViewOps -> ViewOp(s, o)
      [] o[1] \in MatchOps \union SearchOps -> MatchOp(s, o)
      [] o[1] \in GuardOps -> GuardOp(s, o)
      [] o[1] \in StoreOps -> StoreOp(s, o)
      [] o[1] \in PrefixOps -> PrefixOp(s, o)
Apply(s, o) ==
    IF o[1] # "on" THEN Apply1(s, o)
    ELSE LET r == Apply1(Swap(s, o[2]), o[3]) IN IF r.en THEN [r EXCEPT !.st = Swap(r.st, o[2])] ELSE r

(***************************************************************************)
(* What must be observable after a step.                                   *)
(***************************************************************************)
RECURSIVE Mapped(_, _, _)
Mapped(cx, ss, i) ==     \* the slices of a group's spans, in order
    IF i > Len(ss) THEN <<>>
    ELSE IF ss[i] = <<>> THEN Mapped(cx, ss, i + 1)
    ELSE <<Sub(cx, ss[i][1], ss[i][2])>> \o Mapped(cx, ss, i + 1)
Full(ss) == SelectSeq(ss, LAMBDA x : x # <<>>)
(* group g of a store with groups vs; absent groups read as empty *)
ObsGroup(cx, vs, g) ==
    LET ss == IF g <= Len(vs) THEN vs[g] ELSE <<>>
    IN <<Full(ss) # <<>>,                                         \* contain
         ss,                                                     \* span(id, 0..)
         Full(ss),                                               \* spans, spans_iter
         [i \in 1..Len(ss) |-> IF ss[i] = <<>> THEN Oob ELSE Sub(cx, ss[i][1], ss[i][2])],   \* slice
         Mapped(cx, ss, 1)>>                                     \* slice_iter
ObsStore(cx, vs) == [g \in 1..(Len(vs) + 1) |-> ObsGroup(cx, vs, g)]
Obs(g, s) ==
    CASE g.obs = "cur" -> LET c == s.c[1] IN
           <<c.off, Cxt(c).n, [i \in 1..Len(s.gs) |-> s.gs[i][1]]>>
      [] g.obs = "curs" -> [i \in 1..Len(s.c) |-> s.c[i].off]
      [] g.obs = "store" -> <<s.c[1].off, ObsStore(Cxt(s.c[1]), s.vs), ObsStore(Cxt(s.c[1]), s.as)>>
      [] g.obs = "none" -> <<>>

(* releasing all guards *)
RECURSIVE Unwind(_)
Unwind(s) == IF s.gs = <<>> THEN s.c[1].off
             ELSE Unwind(IF GTop(s)[2] THEN Off(Pop(s), GTop(s)[1]) ELSE Pop(s))

(***************************************************************************)
(* The machine.                                                            *)
(***************************************************************************)
Out(x) == IF Emit THEN PrintT(ToJson(x)) ELSE TRUE

Init == gi = 0 /\ ii = 0 /\ st = St0(<<Ctx1("t", <<>>, <<>>, 0)>>) /\ hist = <<>>

Begin ==
    /\ gi = 0
    /\ \E g \in 1..Len(Sess) :
         /\ gi' = g
         /\ Out(<<"G", g, Sess[g].ps, Sess[g].us>>)
         /\ \E j \in 1..Len(Sess[g].ins) : ii' = j /\ st' = Sess[g].ins[j]
    /\ hist' = <<>>

Act(class) ==
    /\ gi # 0 /\ Len(hist) < Grp.depth
    /\ \E k \in 1..Len(Grp.ops) :
         LET o == Grp.ops[k] IN
         /\ (IF o[1] = "on" THEN o[3][1] ELSE o[1]) \in class
         /\ LET r == Apply(st, o) IN
            /\ r.en
            /\ st' = r.st
            /\ hist' = Append(hist, <<o, r.ret, Obs(Grp, r.st)>>)
    /\ (Len(hist) + 1 = Grp.depth => Out(<<"S", gi, Grp.obs, Grp.ins[ii], hist', Unwind(st')>>))
    /\ UNCHANGED <<gi, ii>>

MoveCursor  == Act(CursorOps)
LookAt      == Act(ViewOps)
Attempt     == Act(MatchOps)
Search      == Act(SearchOps)
Guard       == Act(GuardOps)
Capture     == Act(StoreOps)
TestPrefix  == Act(PrefixOps)

Next == Begin \/ MoveCursor \/ LookAt \/ Attempt \/ Search \/ Guard \/ Capture \/ TestPrefix
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Laws, on the history alone.                                             *)
(***************************************************************************)
On == gi # 0 /\ hist # <<>>
Fin == hist[Len(hist)]
Prev == hist[Len(hist) - 1]
OffBefore(i) == IF i = 1 THEN Grp.ins[ii].c[1].off ELSE hist[i - 1][3][1]
OffAfter(i) == hist[i][3][1]
OpAt(i) == hist[i][1][1]

(* the guard opened by step i is released by step Release(i) *)
RECURSIVE Depth(_, _)      \* guards open after the first i steps, counting from step b
Depth(b, i) == IF i < b THEN 0
               ELSE Depth(b, i - 1) + (IF OpAt(i) = "gnew" THEN 1 ELSE IF OpAt(i) = "gdrop" THEN -1 ELSE 0)
LawP21 == On /\ Grp.obs = "cur" =>
    LET n == Len(hist) IN
    /\ (OpAt(n) \in ViewOps \union {"assert", "gpeek", "gpeekat", "gnew", "gok", "gerr"} => OffAfter(n) = OffBefore(n))
    /\ (OpAt(n) = "set" => OffAfter(n) = hist[n][1][2])
    /\ (OpAt(n) \in {"inc", "ginc"} => OffAfter(n) = OffBefore(n) + hist[n][1][2])
    /\ (OpAt(n) = "dec" => OffAfter(n) = OffBefore(n) - hist[n][1][2])
    /\ (OpAt(n) \in {"reset", "resetw"} => OffAfter(n) = 0)
    /\ (OpAt(n) \in {"mat", "gmat"} => (hist[n][2][1] \/ OffAfter(n) = OffBefore(n)))
    /\ (OpAt(n) = "gdrop" =>
          \E b \in 1..(n - 1) :
             /\ OpAt(b) = "gnew" /\ Depth(b, n) = 0 /\ \A m \in b..(n - 1) : Depth(b, m) >= 1
             /\ LET rep == \E m \in (b + 1)..(n - 1) : Depth(b, m) = 1 /\ (OpAt(m) = "gerr" \/ (OpAt(m) = "gmat" /\ ~hist[m][2][1]))
                IN OffAfter(n) = IF rep THEN OffBefore(b) ELSE OffBefore(n))

(* leftmost, non-empty, not overlapping (without policy) *)
MatAt(p, o) == Mat(Cxt(st.c[1]), p, o, <<>>)
Hit(p, o) == LET r == MatAt(p, o) IN r.ok /\ r.n > 0
(* the first position from which an attempt takes something; n: none      *)
FirstHit(p, o, n) == LET S == {x \in o..(n - 1) : Hit(p, x)}
                     IN IF S = {} THEN n ELSE CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE FromI(_, _, _, _, _)    \* where the search for the i-th result begins
FromI(p, seq, o, n, i) == IF i = 1 THEN o
                          ELSE LET f == FromI(p, seq, o, n, i - 1)
                                   x == IF seq THEN f ELSE FirstHit(p, f, n)
                               IN IF x >= n THEN n ELSE MatAt(p, x).off
LawP14 == On /\ Grp.obs = "cur" /\ Grp.ins[ii].c[1].pol = <<>> /\ OpAt(Len(hist)) \in {"find", "findall", "seq"} =>
    LET n == Len(hist)
        p == PatN(hist[n][1][2])
        vs == hist[n][2]
        len == Cxt(st.c[1]).n
        seq == OpAt(n) = "seq"
        mx == IF OpAt(n) = "find" THEN 1 ELSE hist[n][1][3]
        from(i) == FromI(p, seq, OffBefore(n), len, i)
        next == from(Len(vs) + 1)
    IN /\ Len(vs) <= mx
       /\ \A i \in 1..Len(vs) :
            LET x == IF seq THEN from(i) ELSE FirstHit(p, from(i), len)
            IN /\ x < len /\ Hit(p, x)
               /\ vs[i] = SpanV(MatAt(p, x).b, MatAt(p, x).n)
               /\ from(i + 1) > from(i)
       /\ (IF Len(vs) = mx THEN OffAfter(n) = next
           ELSE /\ OffAfter(n) = (IF next >= len THEN next ELSE len)
                /\ (next < len => IF seq THEN ~Hit(p, next) ELSE FirstHit(p, next, len) = len))

(* captures per group, recomputed from the history *)
RECURSIVE Caps(_, _)
Caps(g, i) ==
    IF i = 0 THEN (IF g <= Len(Grp.ins[ii].vs) THEN Grp.ins[ii].vs[g] ELSE <<>>)
    ELSE LET o == hist[i][1] p == Caps(g, i - 1) IN
         CASE o[1] = "add" /\ o[2] = g -> Append(p, <<o[3], o[4]>>)
           [] o[1] = "cap" /\ o[2] = g /\ hist[i][2][1] -> Append(p, <<hist[i][2][2], hist[i][2][3]>>)
           [] o[1] = "clr" /\ o[2] = g -> <<>>
           [] o[1] \in {"rst", "resize"} -> <<>>
           [] OTHER -> p
LawP15 == On /\ Grp.obs = "store" =>
    /\ \A g \in 1..Len(st.vs) : st.vs[g] = Caps(g, Len(hist)) /\ Fin[3][2][g][3] = Caps(g, Len(hist))
    /\ (OpAt(Len(hist)) \in {"cap", "acap"} /\ ~Fin[2][1] =>
          /\ OffAfter(Len(hist)) = OffBefore(Len(hist))
          /\ (Len(hist) > 1 => Fin[3] = Prev[3]))

(* interleaving has no effect: a context sees only its own operations *)
RECURSIVE Alone(_, _, _)
Alone(j, i, s) == IF i > Len(hist) THEN s
                  ELSE Alone(j, i + 1, IF hist[i][1][2] = j THEN Apply(s, hist[i][1]).st ELSE s)
LawP22 == On /\ Grp.obs = "curs" => \A j \in 1..Len(st.c) : Alone(j, 1, Grp.ins[ii]).c[j] = st.c[j]

(* the items seen decide: the first Count by the prefix, the rest by the body *)
RECURSIVE Seen(_, _, _)
Seen(u, j, i) ==   \* items instance j (of unit u) was asked about so far; forks inherit
    IF i = 0 THEN <<>>
    ELSE LET o == hist[i][1] IN
         IF o[1] = "test" /\ o[2] = u /\ o[3] = j THEN Append(Seen(u, j, i - 1), o[4])
         ELSE Seen(u, j, i - 1)
ForksBefore(u, i) == Cardinality({m \in 1..i : hist[m][1][1] = "fork" /\ hist[m][1][2] = u})
LawP24 == On /\ Grp.us # <<>> /\ OpAt(Len(hist)) = "test" /\ (\A m \in 1..Len(hist) : OpAt(m) = "test") =>
    LET o == Fin[1]
        u == Grp.us[o[2]]
        s == Seen(o[2], o[3], Len(hist))
        k == Len(s)
        c == u[2]
        okp == \A i \in 1..(IF k < c THEN k ELSE c) : UM(u[1], s[i])
    IN Fin[2] = (okp /\ (k > c => UM(u[3], s[k])))
LawP23 == On => (Grp.us = <<>> => LawP21 /\ LawP14 /\ LawP15) /\ LawP24
=============================================================================
