------------------------------- MODULE NCases -------------------------------
(***************************************************************************)
(* One operation on a fresh context, for every pattern, input, cursor      *)
(* position, skip policy and handler of the given groups.                  *)
(*                                                                         *)
(*   start --PickPattern--> pat --Attempt/Construct/...--> done            *)
(*                                                                         *)
(* The transition emits the case and the outcome required by NSem as one   *)
(* line of JSON; the replayer performs the same operation on the real      *)
(* implementation.  The laws of NLaws do not mention how NSem evaluates a  *)
(* pattern; they are checked on every outcome.                             *)
(***************************************************************************)
EXTENDS NSem, TLC, Json, FiniteSets

CONSTANTS Groups,      \* sequence of groups, see NFamilies
          Emit         \* whether to print the cases

VARIABLES ph,                  \* phase
          gi, pi, ii, li, di,  \* group, pattern, input, policy, handler
          off, op, ai,         \* start, operation, explicit policies
          res                  \* outcome
vars == <<ph, gi, pi, ii, li, di, off, op, ai, res>>

NoRes == Ok(0, 0, 0, <<>>)

Grp == Groups[gi]
PatOf == Grp.ps[pi]
Inp == Grp.ins[ii]
Cx == MkCtx(Inp.k, Inp.cs, Grp.pols[li], Grp.hds[di])

Offs(gr, jj) ==
    LET nn == Len(Slots(gr.ins[jj].k, gr.ins[jj].cs))
    IN CASE gr.offs = "zero" -> {0}
         [] gr.offs = "in"   -> 0..nn
         [] gr.offs = "all"  -> 0..(nn + 2)
         [] gr.offs = "far"  -> {nn + 1, nn + 3, 2000000000}
         [] gr.offs = "bnd"  -> {o \in 0..nn : Valid(MkCtx(gr.ins[jj].k, gr.ins[jj].cs, <<>>, NoHd), o)}
OffTab == [gg \in 1..Len(Groups) |-> [jj \in 1..Len(Groups[gg].ins) |-> Offs(Groups[gg], jj)]]

Init == /\ ph = "start" /\ gi = 0 /\ pi = 0 /\ ii = 0 /\ li = 0 /\ di = 0
        /\ off = 0 /\ op = "" /\ ai = 0 /\ res = NoRes

Out(x) == IF Emit THEN PrintT(ToJson(x)) ELSE TRUE

PickPattern ==
    /\ ph = "start"
    /\ \E gg \in 1..Len(Groups) : \E pp \in 1..Len(Groups[gg].ps) :
          /\ gi' = gg /\ pi' = pp
          /\ Out(<<"P", gg, pp, Groups[gg].ps[pp]>>)
    /\ ph' = "pat"
    /\ UNCHANGED <<ii, li, di, off, op, ai, res>>

(***************************************************************************)
(* Operations.                                                             *)
(***************************************************************************)
(* explicit policies: the parts run directly, the attempt is one           *)
PolicyMat(cx, bf, p, af, o) ==
    LET s == Parse(cx, bf, o, <<>>)
    IN IF ~s.ok THEN Er(o, s.e, s.h)
       ELSE LET r == Parse(cx, p, s.off, s.h)
            IN IF ~r.ok THEN Er(o, r.e, r.h)
               ELSE LET t == Parse(cx, af, r.off, r.h)
                    IN IF ~t.ok THEN Er(o, t.e, t.h) ELSE Ok(t.off, r.b, r.n, t.h)

(* a look-ahead through the context never moves *)
AssertOp(cx, p, o) ==
    LET r == Mat(cx, p, o, <<>>) IN [r EXCEPT !.off = o, !.b = 0, !.n = 0, !.e = ""]

Perform(o, cx, p, f, gr, aa) ==
    CASE o = "mat"    -> Mat(cx, p, f, <<>>)
      [] o = "raw"    -> Parse(cx, p, f, <<>>)
      [] o = "con"    -> Con(cx, p, f, <<>>)
      [] o = "leaf"   -> LeafCon(cx, p, f, <<>>)
      [] o = "assert" -> AssertOp(cx, p, f)
      [] o = "pol"    -> PolicyMat(cx, gr.pa[aa][1], p, gr.pa[aa][2], f)

RJson(r, er) == <<r.ok, r.off, r.b, r.n, r.v, r.h, IF er \/ r.ok THEN r.e ELSE "*">>

Step(o) ==
    /\ ph = "pat" /\ o \in Grp.ops
    /\ \E jj \in 1..Len(Grp.ins) : \E oo \in OffTab[gi][jj] :
       \E ll \in 1..Len(Grp.pols) :
       \E dd \in (IF o \in {"con", "leaf"} THEN 1..Len(Grp.hds) ELSE {1}) :
       \E aa \in (IF o = "pol" THEN 1..Len(Grp.pa) ELSE {1}) :
         LET in == Grp.ins[jj]
             hd == IF o \in {"con", "leaf"} THEN Grp.hds[dd] ELSE NoHd
             cx == MkCtx(in.k, in.cs, Grp.pols[ll], hd)
         IN /\ ii' = jj /\ off' = oo /\ li' = ll /\ di' = dd /\ ai' = aa
            /\ res' = Perform(o, cx, PatOf, oo, Grp, aa)
            /\ Out(<<"C", gi, pi, in.k, in.cs, Grp.pols[ll], hd.t, hd.k, oo, o,
                     IF o = "pol" THEN Grp.pa[aa] ELSE <<>>, RJson(res', Grp.er)>>)
    /\ op' = o /\ ph' = "done"
    /\ UNCHANGED <<gi, pi>>

Attempt   == Step("mat")
Direct    == Step("raw")
Construct == Step("con")
MapPiece  == Step("leaf")
LookAhead == Step("assert")
AroundMat == Step("pol")

Next == PickPattern \/ Attempt \/ Direct \/ Construct \/ MapPiece \/ LookAhead \/ AroundMat

Spec == Init /\ [][Next]_vars

Done == ph = "done"
=============================================================================
