------------------------------- MODULE NLaws --------------------------------
(***************************************************************************)
(* The properties, stated on outcomes and without reference to the way     *)
(* NSem evaluates a pattern.  TLC checks the law of the property on every  *)
(* outcome of its families; the same outcomes are then demanded of the     *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS NCases

Pt == PatOf
Plain == Done /\ Grp.pols[li] = <<>>
ThisCx == MkCtx(Inp.k, Inp.cs, Grp.pols[li], IF op \in {"con", "leaf"} THEN Grp.hds[di] ELSE NoHd)
HdOk == Grp.hds[di] = NoHd
UserTags == {"radv", "rfail", "irb", "dthen"}
RECURSIVE Moving(_)      \* functions of dynamic patterns that move the cursor themselves
Moving(p) == (p.t \in {"irb", "dthen"} /\ p.f.f = "adv") \/ \E i \in 1..Len(Kids(p)) : Moving(Kids(p)[i])
MatAt(p, o) == Mat(ThisCx, p, o, <<>>)
ConAt(p, o) == Con(ThisCx, p, o, <<>>)
Same(r, s) == r.ok = s.ok /\ r.off = s.off /\ (r.ok => r.v = s.v) /\ r.h = s.h
SameM(r, s) == r.ok = s.ok /\ r.off = s.off /\ (r.ok => r.b = s.b /\ r.n = s.n)

SkipTo(o) == IF Grp.pols[li] = <<>> THEN [ok |-> TRUE, off |-> o]
             ELSE Parse(MkCtx(Inp.k, Inp.cs, <<>>, NoHd), Grp.pols[li][1], o, <<>>)

(* P01: an attempt that fails does not move; nor does a composite construction *)
Composite == {"then", "or", "ifthen", "enclose", "prefix", "suffix", "seponce", "longest", "optp", "branch", "collect",
              "repeat", "rep2", "sep", "sep2", "sepc", "arr", "parr", "dthen"}
LawP01 == Done /\ ~res.ok =>
            /\ (op \in {"mat", "pol", "assert"} => res.off = off)
            /\ (op = "con" /\ Pt.t \in Composite => res.off = off)

(* P02: the span is what was consumed *)
LawP02 == Plain /\ op = "mat" /\ res.ok /\ ~HasTag(Pt, UserTags) =>
            /\ res.b = off
            /\ res.b + res.n = res.off
            /\ off <= res.off
            /\ (off <= ThisCx.n => res.off <= ThisCx.n)

(* P03: both ways of evaluating agree *)
RECURSIVE FailingMap(_)      \* conversions are not made when only recognising
FailingMap(p) == (p.t = "map" /\ p.m.m \notin {"id", "tag", "sel0", "sel1"}) \/ \E i \in 1..Len(Kids(p)) : FailingMap(Kids(p)[i])
LawP03 == Plain /\ op = "mat" /\ ~HasTag(Pt, {"rfail", "dthen"}) /\ ~FailingMap(Pt)
          (* the reported span of a dynamic choice leaves out its first part *)
          /\ ~(HasTag(Pt, {"irb"}) /\ HasTag(Pt, {"longest", "arr", "parr"})) =>
            LET c == Con(ThisCx, Pt, off, <<>>) IN c.ok = res.ok /\ (c.ok => c.off = res.off)

(* P04: the pieces in the value were handed over, in order; without        *)
(* backtracking they are all that was handed over                          *)
RECURSIVE Pieces(_)
RECURSIVE PiecesL(_, _)
PiecesL(vs, i) == IF i > Len(vs) THEN <<>> ELSE Pieces(vs[i]) \o PiecesL(vs, i + 1)
Pieces(v) ==
    CASE v[1] = "s" -> <<<<v[2], v[3]>>>>
      [] v[1] = "p" -> Pieces(v[2]) \o Pieces(v[3])
      [] v[1] = "l" -> PiecesL(v[2], 1)
      [] v[1] = "o" -> IF Len(v) = 1 THEN <<>> ELSE Pieces(v[2])
      [] v[1] = "t" -> Pieces(v[3])
      [] v[1] = "k" -> <<>>
HLog(h) == LET s == SelectSeq(h, LAMBDA x : x[1] = "h") IN [i \in 1..Len(s) |-> <<s[i][2], s[i][3]>>]
RECURSIVE SubSeqOf(_, _, _, _)     \* is s (from i) a subsequence of t (from j)?
SubSeqOf(s, i, t, j) == IF i > Len(s) THEN TRUE
                        ELSE IF j > Len(t) THEN FALSE
                        ELSE IF s[i] = t[j] THEN SubSeqOf(s, i + 1, t, j + 1) ELSE SubSeqOf(s, i, t, j + 1)
Backtracking == {"or", "longest", "optp", "arr", "parr", "collect", "repeat", "rep2", "sep", "sep2", "sepc", "map"}
LawP04 == Done /\ op = "con" =>
            /\ (res.ok => SubSeqOf(Pieces(res.v), 1, HLog(res.h), 1))
            /\ (res.ok /\ ~HasTag(Pt, Backtracking) => Pieces(res.v) = HLog(res.h))
            /\ \A i \in 1..Len(res.h) : res.h[i][1] = "h" /\ ~HasTag(Pt, UserTags) /\ Grp.pols[li] = <<>>
                  => res.h[i][2] + res.h[i][3] = res.h[i][4]

(* P05, P06: a quantified unit takes the longest admissible run *)
Codes0(cx, o) == IF Valid(cx, o) THEN Codes(cx, o, cx.n) ELSE <<>>
QMax(p) == CASE p.t \in {"once", "opt"} -> 1
             [] p.t \in {"many0", "many1"} -> NoMax
             [] p.t = "btw" -> p.max
             [] p.t = "times" -> MaxOf(p.hk, p.hi)
QOk(p, n) == CASE p.t = "once" -> n = 1
               [] p.t \in {"opt", "many0"} -> TRUE
               [] p.t = "many1" -> n >= 1
               [] p.t = "btw" -> n >= p.min
               [] p.t = "times" -> CountIn(p.lk, p.lo, p.hk, p.hi, n)
WidthTo(k, cs, n) == LitLen(k, SubSeq(cs, 1, n))
LawRun == Plain /\ op = "mat" /\ Pt.t \in {"once", "opt", "many0", "many1", "btw", "times"} /\ Pt.c.c \in {"none", "not"}
          /\ Valid(ThisCx, off) =>
    LET cs == Codes0(ThisCx, off)
        acc(i) == UM(Pt.u, cs[i]) /\ (Pt.c.c = "not" => cs[i] # Pt.c.k)
        most(n) == n = Len(cs) \/ n = QMax(Pt) \/ ~acc(n + 1)
        best == CHOOSE n \in 0..Len(cs) : most(n) /\ (QMax(Pt) # NoMax => n <= QMax(Pt)) /\ \A i \in 1..n : acc(i)
    IN /\ res.ok = QOk(Pt, best)
       /\ (res.ok => res.n = WidthTo(Inp.k, cs, best))
(* set algebra *)
LawAlg == Plain /\ op = "mat" /\ Pt.t = "once" /\ Len(Inp.cs) = 1 /\ off = 0 =>
    LET c == Inp.cs[1] IN
      CASE Pt.u.u = "and" -> res.ok = (UM(Pt.u.l, c) /\ UM(Pt.u.r, c))
        [] Pt.u.u = "or"  -> res.ok = ~(~UM(Pt.u.l, c) /\ ~UM(Pt.u.r, c))
        [] Pt.u.u = "not" -> res.ok # UM(Pt.u.x, c)
        [] Pt.u.u = "wrap" -> res.ok = UM(Pt.u.x, c)
        [] OTHER -> TRUE

LawP05 == LawRun /\ LawAlg
LawP06 == LawRun

(* P07: consecutive, as often as possible, within bounds *)
RepMax(p) == CASE p.t = "collect" -> NoMax [] p.t = "rep2" -> p.max [] p.t = "repeat" -> MaxOf(p.hk, p.hi)
RepOk(p, n) == CASE p.t \in {"collect", "rep2"} -> n >= p.min
                 [] p.t = "repeat" -> CountIn(p.lk, p.lo, p.hk, p.hi, n)
Elems(v) == IF Pt.t \in {"rep2", "sep2"} THEN SelectSeq(v[2], LAMBDA x : x # <<"o">>) ELSE v[2]
RECURSIVE Jump(_, _, _)      \* position after n elements, -1 if they are not there
Jump(p, o, n) == IF n = 0 THEN o
                 ELSE LET r == Con(ThisCx, p, o, <<>>) IN IF r.ok THEN Jump(p, r.off, n - 1) ELSE -1
LawP07 == Done /\ op = "con" /\ Pt.t \in {"collect", "rep2", "repeat"} /\ HdOk =>
    LET cnt == IF res.ok THEN Len(Elems(res.v)) ELSE 0 IN
      /\ res.ok => /\ RepOk(Pt, cnt)
                   /\ (RepMax(Pt) # NoMax => cnt <= RepMax(Pt))
                   /\ Jump(Pt.p, off, cnt) = res.off
                   /\ (cnt # RepMax(Pt) => ~Con(ThisCx, Pt.p, res.off, <<>>).ok)
                   /\ (Pt.t = "rep2" => Len(res.v[2]) = Pt.max
                        /\ \A i \in 1..Pt.max : (res.v[2][i] = <<"o">>) = (i > cnt))
      /\ ~res.ok => \A n \in 0..8 : RepOk(Pt, n) /\ (RepMax(Pt) # NoMax => n <= RepMax(Pt)) =>
                       LET e == Jump(Pt.p, off, n)
                       IN e = -1 \/ (n # RepMax(Pt) /\ Con(ThisCx, Pt.p, e, <<>>).ok)

(* P08: a list of n elements, each but the last followed by a separator *)
RECURSIVE JumpS(_, _, _)
JumpS(p, o, n) ==     \* after n elements with their separators
    IF n = 0 THEN o
    ELSE LET r == Con(ThisCx, p.p, o, <<>>)
         IN IF ~r.ok THEN -1
            ELSE LET s == Mat(ThisCx, p.s, r.off, <<>>) IN IF s.ok THEN JumpS(p, s.off, n - 1) ELSE -1
LawP08 == Done /\ op = "con" /\ Pt.t \in {"sep", "sep2", "sepc"} /\ HdOk /\ res.ok =>
    LET cnt == Len(Elems(res.v))
        full == JumpS(Pt, off, cnt)
        most == IF cnt = 0 THEN -1 ELSE JumpS(Pt, off, cnt - 1)
    IN /\ cnt >= Pt.min
       /\ (SepMax(Pt) # NoMax => cnt <= SepMax(Pt))
       /\ \/ full = res.off           \* every element had its separator
          \/ /\ full = -1 /\ Pt.skip /\ most # -1
             /\ Con(ThisCx, Pt.p, most, <<>>).off = res.off
       /\ (full = res.off /\ cnt # SepMax(Pt)) =>      \* nothing more to take
             LET e == Con(ThisCx, Pt.p, res.off, <<>>)
             IN ~e.ok \/ (~Pt.skip /\ ~Mat(ThisCx, Pt.s, e.off, <<>>).ok)

(* P09 *)
AltsOf(p) == IF p.t \in {"arr", "parr"} THEN p.ps ELSE <<p.l, p.r>>
LawP09 == Done /\ op \in {"mat", "con"} /\ HdOk =>
    LET at(p) == IF op = "mat" THEN MatAt(p, off) ELSE ConAt(p, off) IN
    /\ (Pt.t = "or" \/ (Pt.t \in {"arr", "parr"} /\ ~Pt.ltm)) =>
         LET ps == AltsOf(Pt)
             okay == {i \in 1..Len(ps) : at(ps[i]).ok}
             \* the policy runs before the choice and again before the alternative
         IN Grp.pols[li] = <<>> =>
            /\ res.ok = (okay # {})
            /\ res.ok => LET i == CHOOSE i \in okay : \A k \in okay : i <= k
                             r == at(ps[i])
                         IN /\ res.off = r.off
                            /\ (op = "mat" => res.b = r.b /\ res.n = r.n)
                            /\ (op = "con" => IF Pt.t = "parr" THEN res.v = <<"p", r.v, <<"k", Pt.ks[i]>>>> ELSE res.v = r.v)
    /\ Pt.t = "optp" /\ SkipTo(off).ok => res.ok /\ (~at(Pt.p).ok /\ Grp.pols[li] = <<>> => res.off = off)
    /\ Pt.t = "branch" =>
         LET t == TestB(ThisCx, Pt.f, off)
         IN CASE Grp.pols[li] # <<>> -> TRUE
              [] t = "E" -> ~res.ok /\ res.e = "Uid500"
              [] OTHER -> res.ok = at(IF t = "T" THEN Pt.l ELSE Pt.r).ok

(* P10 *)
LawP10 == Plain /\ op \in {"mat", "con"} /\ HdOk /\ (Pt.t = "longest" \/ (Pt.t \in {"arr", "parr"} /\ Pt.ltm))
          (* recognising compares what is reported, which leaves out the first part of a dynamic choice *)
          /\ (op = "mat" => ~HasTag(Pt, UserTags)) =>
    LET at(p) == IF op = "mat" THEN MatAt(p, off) ELSE ConAt(p, off)
        ps == AltsOf(Pt)
        okay == {i \in 1..Len(ps) : at(ps[i]).ok}
    IN /\ res.ok = (okay # {})
       /\ res.ok => LET best == CHOOSE i \in okay : /\ \A k \in okay : at(ps[k]).off <= at(ps[i]).off
                                                    /\ \A k \in okay : at(ps[k]).off = at(ps[i]).off => i <= k
                        r == at(ps[best])
                    IN /\ res.off = r.off
                       /\ (op = "mat" => res.b = r.b /\ res.n = r.n)
                       /\ (op = "con" => IF Pt.t = "parr" THEN res.v = <<"p", r.v, <<"k", Pt.ks[best]>>>> ELSE res.v = r.v)

(* P11: in order, each where the previous one ended *)
PartsOf(p) == CASE p.t = "then" -> <<p.l, p.r>> [] p.t = "prefix" -> <<p.x, p.p>> [] p.t = "suffix" -> <<p.p, p.x>>
                [] p.t = "enclose" -> <<p.o, p.p, p.c>> [] p.t = "seponce" -> <<p.l, p.s, p.r>>
RECURSIVE Along(_, _, _)
Along(ps, i, o) == IF i > Len(ps) THEN o ELSE LET r == MatAt(ps[i], o) IN IF r.ok THEN Along(ps, i + 1, r.off) ELSE -1
LawP11 == Plain /\ op = "mat" =>
    /\ Pt.t \in {"then", "prefix", "suffix", "enclose", "seponce"} =>
         LET e == Along(PartsOf(Pt), 1, off)
         IN res.ok = (e # -1) /\ (res.ok => res.off = e /\ (HasTag(Pt, UserTags) \/ (res.b = off /\ res.n = e - off)))
    /\ Pt.t = "ifthen" =>
         LET e1 == Along(<<Pt.l>>, 1, off)
             e2 == Along(<<Pt.l, Pt.i>>, 1, off)
             e3 == Along(<<Pt.l, Pt.i, Pt.r>>, 1, off)
         IN IF e2 # -1 THEN res.ok = (e3 # -1) /\ (res.ok => res.off = e3)
            ELSE res.ok = (e1 # -1) /\ (res.ok => res.off = e1)

(* P12 *)
LawP12 == Plain /\ op \in {"mat", "raw"} =>
    LET left == IF off <= ThisCx.n THEN SubSeq(ThisCx.dat, off + 1, ThisCx.n) ELSE <<>>
        s == IF Pt.t = "lit" THEN Slots(Inp.k, Pt.s) ELSE <<>>
    IN CASE Pt.t = "lit" -> /\ (res.ok => Len(s) <= Len(left) /\ SubSeq(left, 1, Len(s)) = s /\ res.n = Len(s) /\ res.off = off + Len(s))
                            /\ (Valid(ThisCx, off) /\ Len(s) <= Len(left) /\ SubSeq(left, 1, Len(s)) = s => res.ok)
         [] Pt.t = "start" -> res.ok = (off = 0) /\ res.off = off
         [] Pt.t = "end" -> res.ok = (off = ThisCx.n) /\ res.off = off
         [] Pt.t = "assert" -> res.ok = (MatAt(Pt.p, off).ok = Pt.pos) /\ res.off = off /\ res.n = 0
         [] Pt.t \in {"empty", "unit"} -> res.ok /\ res.off = off /\ res.n = 0
         [] Pt.t = "fail" -> ~res.ok
         [] Pt.t = "cons" -> off <= ThisCx.n => res.ok = (Pt.k <= Len(left)) /\ (res.ok => res.off = off + Pt.k)
         [] Pt.t = "consall" -> res.ok /\ (off <= ThisCx.n => res.off = ThisCx.n)
         [] OTHER -> TRUE

(* P13 *)
LawP13 == Done /\ op = "con" /\ Pt.t = "map" =>
    LET r == ConAt(Pt.p, off)
        m == MapV(Pt.m, r.v)
    IN /\ (~r.ok => ~res.ok /\ res.e = r.e)
       /\ (r.ok => res.ok = m.ok /\ (IF m.ok THEN res.v = m.v ELSE res.e = m.e))

(* P16: with a policy that never fails, matching a part is skipping and    *)
(* then matching it without the policy                                     *)
LawP16 == Done /\ op = "mat" =>
    /\ (~SkipTo(off).ok => ~res.ok /\ res.off = off)
    /\ Pt.t \in {"once", "opt", "many0", "many1", "btw", "times", "lit", "start", "end", "empty", "fail", "nthen"}
       /\ ("c" \in DOMAIN Pt => Pt.c.c # "rx") /\ SkipTo(off).ok =>
         LET r == Parse(MkCtx(Inp.k, Inp.cs, <<>>, NoHd), Pt, SkipTo(off).off, <<>>)
         IN res.ok = r.ok /\ (r.ok => res.off = r.off /\ res.b = r.b /\ res.n = r.n)
    /\ (res.ok /\ Pt.t = "then" => res.b >= SkipTo(off).off)

(* P17 *)
FCalls(h) == Len(SelectSeq(h, LAMBDA x : x[1] = "f"))
LawP17 == Plain /\ op \in {"mat", "con"} /\ Pt.t \in {"irb", "dthen"} /\ HdOk =>
    LET first == IF Pt.t = "irb" THEN MatAt(Pt.p, off) ELSE ConAt(Pt.p, off)
    IN /\ (~first.ok => ~res.ok /\ FCalls(res.h) = FCalls(first.h))
       /\ (first.ok => FCalls(res.h) >= FCalls(first.h) + 1
                       /\ res.h[Len(first.h) + 1][1] = "f" /\ res.h[Len(first.h) + 1][4] = first.off)
       /\ (Pt.t = "dthen" /\ res.ok => res.v[1] = "p" /\ res.v[2] = first.v)

(* P18: a recursive pattern is its unfolding *)
RECURSIVE Subst(_, _, _)   \* replace references to the level-k recursion by q
Subst(p, k, q) ==
  CASE p.t = "self" -> IF p.k = k THEN q ELSE p
    [] p.t = "rec" -> [p EXCEPT !.p = Subst(p.p, k + 1, q)]
    [] p.t \in {"then", "or", "longest", "branch"} -> [p EXCEPT !.l = Subst(p.l, k, q), !.r = Subst(p.r, k, q)]
    [] p.t = "ifthen" -> [p EXCEPT !.l = Subst(p.l, k, q), !.i = Subst(p.i, k, q), !.r = Subst(p.r, k, q)]
    [] p.t = "seponce" -> [p EXCEPT !.l = Subst(p.l, k, q), !.s = Subst(p.s, k, q), !.r = Subst(p.r, k, q)]
    [] p.t = "enclose" -> [p EXCEPT !.o = Subst(p.o, k, q), !.p = Subst(p.p, k, q), !.c = Subst(p.c, k, q)]
    [] p.t \in {"prefix", "suffix"} -> [p EXCEPT !.x = Subst(p.x, k, q), !.p = Subst(p.p, k, q)]
    [] p.t \in {"sep", "sep2", "sepc"} -> [p EXCEPT !.p = Subst(p.p, k, q), !.s = Subst(p.s, k, q)]
    [] p.t \in {"collect", "rep2", "repeat", "optp", "map", "pat", "assert", "wrap"} -> [p EXCEPT !.p = Subst(p.p, k, q)]
    [] p.t \in {"irb", "dthen"} -> IF "p" \in DOMAIN p.f THEN [p EXCEPT !.p = Subst(p.p, k, q), !.f.p = Subst(p.f.p, k, q)]
                                  ELSE [p EXCEPT !.p = Subst(p.p, k, q)]
    [] p.t \in {"arr", "parr"} -> [p EXCEPT !.ps = [i \in 1..Len(p.ps) |-> Subst(p.ps[i], k, q)]]
    [] OTHER -> p
RECURSIVE Unfold(_, _)
Unfold(p, n) == IF n = 0 THEN Fail ELSE Subst(p, 0, Unfold(p, n - 1))
LawP18 == Done /\ op \in {"mat", "con"} /\ Pt.t = "rec" /\ Len(Inp.cs) <= 4 /\ ~HasTag(Pt.p, {"rec"}) =>
    LET u == Unfold(Pt.p, Len(Inp.cs) + 2)
        r == IF op = "mat" THEN MatAt(u, off) ELSE ConAt(u, off)
    IN IF op = "mat" THEN SameM(r, res) ELSE (res.ok = r.ok /\ (res.ok => res.off = r.off /\ res.v = r.v))

(* P19 *)
LawP19 == Done /\ Pt.t = "wrap" =>
    IF Pt.w \in NoneWraps THEN ~res.ok /\ res.off = off
    ELSE CASE op = "mat" -> LET r == MatAt(Pt.p, off) IN SameM(r, res) /\ r.h = res.h /\ r.e = res.e
           [] op = "con" -> IF Pt.w \in LeafWraps THEN LET r == MatAt(Pt.p, off) IN r.ok = res.ok \/ ~res.ok
                            ELSE LET r == ConAt(Pt.p, off) IN Same(r, res)
           [] OTHER -> TRUE

(* P20 *)
LawP20 == Done =>
    /\ (Inp.k = "t" /\ ~Moving(Pt) /\ Valid(ThisCx, off) /\ ~HasTag(Pt, {"cons", "radv", "rfail"}) /\ op \in {"mat", "con"} =>
          /\ Valid(ThisCx, res.off)
          /\ (op = "mat" /\ res.ok => Valid(ThisCx, res.b) /\ Valid(ThisCx, res.b + res.n)))
    /\ (Plain /\ Inp.k = "t" /\ op = "mat" /\ (\A i \in 1..Len(Inp.cs) : Inp.cs[i] < 128) =>
          LET r == Mat(MkCtx("b", Inp.cs, <<>>, NoHd), Pt, off, <<>>) IN SameM(r, res))
    /\ (Inp.k = "t" /\ ~Valid(ThisCx, off) /\ op = "mat" /\ Pt.t \in {"once", "many1", "nthen", "lit"} /\ Grp.pols[li] = <<>> => ~res.ok)

LawP22 == LawP01
LawP23 == LawP01

(* P25 *)
LawP25 == Done /\ ~Moving(Pt) /\ ~HasTag(Pt, {"radv", "rfail"}) => res.off <= (IF off > ThisCx.n THEN off ELSE ThisCx.n)

(* P27: a failure is attributed to something inside the pattern *)
LeafErr(p) == CASE p.t = "once" -> "Once" [] p.t = "many1" -> "Many1" [] p.t = "btw" -> "Between" [] p.t = "times" -> "Times"
                [] p.t = "nthen" -> "NeureThen" [] p.t = "lit" -> "Literal" [] p.t = "start" -> "AnchorStart" [] p.t = "end" -> "AnchorEnd"
                [] p.t = "fail" -> "Fail" [] p.t = "cons" -> "Consume" [] p.t = "rfail" -> "Uid400" [] p.t = "collect" -> "Collect"
                [] p.t = "repeat" -> "Repeat" [] p.t = "rep2" -> "Repeat2" [] p.t \in {"sep", "sep2", "sepc"} -> SepErr(p)
                [] p.t \in {"arr", "parr"} -> ArrErr(p) [] p.t = "branch" -> "Uid500" [] p.t = "assert" -> (IF p.pos THEN "AssertTrue" ELSE "AssertFalse")
                [] p.t = "map" -> (CASE p.m.m = "err" -> "Uid700" [] p.m.m = "short" -> "Uid701" [] p.m.m = "seleq" -> "SelectEq" [] p.m.m = "selneq" -> "SelectNeq" [] OTHER -> "")
                [] OTHER -> ""
RECURSIVE ErrsOf(_)
ErrsOf(p) == {LeafErr(p), "OutOfBound", "Uid600", "Uid800", "Uid801", "Uid900", "*", "Option"} \union UNION {ErrsOf(Kids(p)[i]) : i \in 1..Len(Kids(p))}
             \union (IF p.t \in {"irb", "dthen"} THEN {"Literal", "Times"} ELSE {})
LawP27 == Done /\ ~res.ok /\ op \in {"mat", "con"} => res.e \in (ErrsOf(Pt) \union {"Once", "Literal", "Fail"}
                                                                  \union (IF Grp.pols[li] = <<>> THEN {} ELSE ErrsOf(Grp.pols[li][1])))
=============================================================================
