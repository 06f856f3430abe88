------------------------------ MODULE NThreads ------------------------------
(***************************************************************************)
(* Several threads use one pattern.                                        *)
(*                                                                         *)
(* Every thread performs its program, a sequence of operations on contexts *)
(* of its own.  What one operation does, seen from outside, is a sequence  *)
(* of events: it begins, it calls the user's functions one after the       *)
(* other, and it takes and gives back the lock of the pattern if there is  *)
(* one.  The events come from NSem.  Threads interleave event by event.    *)
(*                                                                         *)
(*   Begin(t)   the next operation of t starts                             *)
(*   Call(t)    t calls the user's next function                           *)
(*   Take(t)    t takes the lock, which must be free                       *)
(*   Give(t)    t gives it back                                            *)
(*   Init_      the pattern, kept in a once-cell, is put there             *)
(*                                                                         *)
(* A finished behaviour is emitted as the schedule (the threads in the     *)
(* order of their visible events, 0 for the initialisation) and the        *)
(* outcomes of the operations of every thread.  The replayer forces real   *)
(* threads through the schedule.                                           *)
(***************************************************************************)
EXTENDS NSem, TLC, Json, FiniteSets

CONSTANTS TGroups,     \* sequence of groups
          Emit

(* a group: ps patterns, as sequences of programs (one for each thread),   *)
(* cell: whether the pattern is put into its once-cell while threads run   *)
(* an operation: [op, k, cs, off, hd]                                      *)

VARIABLES gi, pi, ji,  \* group, pattern, programs
          pos,         \* thread -> operation it is at
          ev,          \* thread -> events of it that happened, 0: not begun
          outs,        \* thread -> outcomes so far
          set,         \* whether the once-cell is filled
          holder,      \* who has the lock, 0: nobody
          sched        \* visible events so far
vars == <<gi, pi, ji, pos, ev, outs, set, holder, sched>>

G == TGroups[gi]
Pat1(g, pp) == TGroups[g].ps[pp]

PerformT(x, p) ==
    LET cx == [MkCtx(x.k, x.cs, <<>>, x.hd) EXCEPT !.lk = TRUE]
    IN CASE x.op = "mat"  -> Mat(cx, p, x.off, <<>>)
         [] x.op = "con"  -> Con(cx, p, x.off, <<>>)
         [] x.op = "leaf" -> LeafCon(cx, p, x.off, <<>>)

(* what the operations do when performed one after the other *)
Alone == [g \in 1..Len(TGroups) |-> [pp \in 1..Len(TGroups[g].ps) |-> [jj \in 1..Len(TGroups[g].as) |->
            [t \in 1..Len(TGroups[g].as[jj]) |-> [o \in 1..Len(TGroups[g].as[jj][t]) |->
                PerformT(TGroups[g].as[jj][t][o], TGroups[g].ps[pp])]]]]]

Visible(h) == SelectSeq(h, LAMBDA x : x[1] \notin {"acq", "rel"})
RJ(r) == <<r.ok, r.off, r.b, r.n, r.v, Visible(r.h), IF r.ok THEN "" ELSE r.e>>
Unset(x) == Er(x.off, "Option", <<>>)

Prog == TGroups[gi].as[ji]
T == 1..Len(Prog)
Cur(t) == Alone[gi][pi][ji][t][pos[t]]
Evs(t) == Cur(t).h
More(t) == pos[t] <= Len(Prog[t])

Init == \E g \in 1..Len(TGroups) : \E pp \in 1..Len(TGroups[g].ps) : \E jj \in 1..Len(TGroups[g].as) :
          LET n == Len(TGroups[g].as[jj])
          IN /\ gi = g /\ pi = pp /\ ji = jj
             /\ pos = [t \in 1..n |-> 1] /\ ev = [t \in 1..n |-> 0] /\ outs = [t \in 1..n |-> <<>>]
             /\ set = ~TGroups[g].cell /\ holder = 0 /\ sched = <<>>

(* after k events of the operation *)
Reach(t, k) ==
    IF k >= 1 + Len(Evs(t))
    THEN /\ pos' = [pos EXCEPT ![t] = @ + 1] /\ ev' = [ev EXCEPT ![t] = 0]
         /\ outs' = [outs EXCEPT ![t] = Append(@, <<"ran", Cur(t)>>)]
    ELSE /\ ev' = [ev EXCEPT ![t] = k] /\ UNCHANGED <<pos, outs>>

Same == UNCHANGED <<gi, pi, ji>>
NextEv(t) == Evs(t)[ev[t]]      \* of an operation that has begun

Begin(t) ==
    /\ More(t) /\ ev[t] = 0
    /\ sched' = Append(sched, t)
    /\ IF set THEN Reach(t, 1)
       ELSE /\ pos' = [pos EXCEPT ![t] = @ + 1] /\ ev' = ev
            /\ outs' = [outs EXCEPT ![t] = Append(@, <<"unset", Unset(Prog[t][pos[t]])>>)]
    /\ UNCHANGED <<set, holder>> /\ Same

Call(t) ==
    /\ More(t) /\ ev[t] > 0 /\ NextEv(t)[1] \notin {"acq", "rel"}
    /\ sched' = Append(sched, t)
    /\ Reach(t, ev[t] + 1)
    /\ UNCHANGED <<set, holder>> /\ Same

Take(t) ==
    /\ More(t) /\ ev[t] > 0 /\ NextEv(t)[1] = "acq"
    /\ holder = 0 /\ holder' = t
    /\ Reach(t, ev[t] + 1)
    /\ UNCHANGED <<set, sched>> /\ Same

Give(t) ==
    /\ More(t) /\ ev[t] > 0 /\ NextEv(t)[1] = "rel"
    /\ holder' = 0
    /\ Reach(t, ev[t] + 1)
    /\ UNCHANGED <<set, sched>> /\ Same

Init_ ==
    /\ ~set /\ set' = TRUE
    /\ sched' = Append(sched, 0)
    /\ UNCHANGED <<pos, ev, outs, holder>> /\ Same

AllDone == set /\ \A t \in T : ~More(t)
Some1 == Init_ \/ \E t \in T : Begin(t) \/ Call(t) \/ Take(t) \/ Give(t)
Next == Some1

Spec == Init /\ [][Next]_vars

(* ------------------------------- laws ---------------------------------- *)
Locked(t) == More(t) /\ ev[t] > 0 /\
             Cardinality({i \in 1..(ev[t] - 1) : Evs(t)[i][1] = "acq"})
               > Cardinality({i \in 1..(ev[t] - 1) : Evs(t)[i][1] = "rel"})
(* at most one thread has the lock, and it is the one that holds it *)
Exclusive == \A t \in T : Locked(t) <=> holder = t
(* nobody waits for ever *)
NoDeadlock == ~AllDone => ENABLED Some1
(* every operation gives what it gives when the thread is alone; a once-   *)
(* cell that was seen filled is never seen empty again                     *)
Undisturbed == \A t \in T : \A i \in 1..Len(outs[t]) :
    /\ \/ outs[t][i] = <<"ran", Alone[gi][pi][ji][t][i]>>
       \/ TGroups[gi].cell /\ outs[t][i] = <<"unset", Unset(Prog[t][i])>>
    /\ \A k \in 1..i : outs[t][k][1] = "ran" => outs[t][i][1] = "ran"
(* the outcomes agree with the order in which things happened *)
InOrder == TGroups[gi].cell =>
    \A t \in T : \A i \in 1..Len(outs[t]) :
        LET at == CHOOSE k \in 1..Len(sched) : sched[k] = t /\ TRUE
        IN i = 1 => (outs[t][i][1] = "unset" <=> \A k \in 1..at : sched[k] # 0)
LawThreads == Exclusive /\ NoDeadlock /\ Undisturbed /\ InOrder

Line == <<"T", TGroups[gi].ps[pi], TGroups[gi].cell, [t \in T |-> [i \in 1..Len(Prog[t]) |->
            <<Prog[t][i].op, Prog[t][i].k, Prog[t][i].cs, Prog[t][i].off, Prog[t][i].hd.t, Prog[t][i].hd.k>>]],
          sched, [t \in T |-> [i \in 1..Len(outs[t]) |-> RJ(outs[t][i][2])]],
          [t \in T |-> [i \in 1..Len(outs[t]) |-> \E e \in 1..Len(outs[t][i][2].h) : outs[t][i][2].h[e][1] = "acq"]]>>
Emitted == (Emit /\ AllDone) => PrintT(ToJson(Line))
=============================================================================
