------------------------------- MODULE NInput -------------------------------
(***************************************************************************)
(* Inputs.  An input is text ("t") or raw bytes ("b") given as a sequence  *)
(* of item codes.  Positions are byte offsets, as in the implementation,   *)
(* so an input is laid out as a sequence of slots, one per byte: the code  *)
(* of a character sits in its first slot, continuation slots hold -1.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

WidthK(k, c) == IF k = "b" THEN 1 ELSE Width(c)

CharSlots(c) == <<c>> \o [i \in 1..(Width(c) - 1) |-> -1]

(* halves, since TLC pays for the depth of a recursion *)
RECURSIVE TextSlots(_, _, _)
TextSlots(cs, i, j) ==
    IF i > j THEN <<>> ELSE IF i = j THEN CharSlots(cs[i])
    ELSE LET m == (i + j) \div 2 IN TextSlots(cs, i, m) \o TextSlots(cs, m + 1, j)

Slots(k, cs) == IF k = "b" THEN cs ELSE TextSlots(cs, 1, Len(cs))

(***************************************************************************)
(* A context: the input, the skip policy (<<>> or <<pattern>>), the        *)
(* handler used by construction, and the bodies of the enclosing recursive *)
(* patterns.  The cursor is not part of it; it is threaded by NSem and is  *)
(* a state variable of the machines built on top.  lk: whether taking and  *)
(* giving back locks is recorded in the log (NThreads).                    *)
(***************************************************************************)
MkCtx(k, cs, pol, hd) ==
    LET d == Slots(k, cs)
    IN [k |-> k, dat |-> d, n |-> Len(d), pol |-> pol, hd |-> hd, env |-> <<>>, lk |-> FALSE]

NoHd == [t |-> "ok", k |-> 0]

(* a position from which items can be read *)
Valid(cx, off) == /\ off >= 0
                  /\ off <= cx.n
                  /\ (off = cx.n \/ cx.dat[off + 1] >= 0)

AtEnd(cx, off) == off >= cx.n

Item(cx, off) == cx.dat[off + 1]

Next1(cx, off) == off + WidthK(cx.k, Item(cx, off))

(* the item codes of the span [b, b+n) *)
Codes(cx, b, e) == SelectSeq(SubSeq(cx.dat, b + 1, e), LAMBDA c : c >= 0)

SubCtx(cx, off) == [cx EXCEPT !.dat = SubSeq(cx.dat, off + 1, cx.n), !.n = cx.n - off]

LitLen(k, s) == Len(Slots(k, s))
=============================================================================
