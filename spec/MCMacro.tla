------------------------------- MODULE MCMacro -------------------------------
EXTENDS NMacro, NCases

(* what is to be compiled *)
ASSUME Emit => \A g \in 1..Len(Src) : \A k \in 1..Len(Src[g]) :
                   PrintT(ToJson(<<"F", g, k, Src[g][k].t.s = "b", Src[g][k].src>>))

(***************************************************************************)
(* The documented meaning, without the units and quantifiers of NSem: the  *)
(* set of characters a form stands for, and the longest run within bounds. *)
(***************************************************************************)
Form == Src[gi][pi]
RECURSIVE InItem(_, _)
InItem(i, c) == CASE i.u = "chr" -> c = i.c
                  [] i.u = "rng" -> c \in i.lo..(IF i.hk = "i" THEN i.hi ELSE i.hi - 1)
                  [] i.u = "set" -> c \in {i.cs[k] : k \in 1..Len(i.cs)}
                  [] i.u = "cls" -> c \in 65..90          \* only upper case letters are used
                  [] i.u = "not" -> ~InItem(i.x, c)
WhiteSpace == {9, 10, 11, 12, 13, 32, 133, 160, 12288}
Stands(t, c) ==
    CASE t.a = "ws"   -> c \in WhiteSpace
      [] t.a = "nws"  -> c \notin WhiteSpace
      [] t.a = "wild" -> c # 10
      [] t.a \in {"chr", "set"} -> c \in {t.x[k] : k \in 1..Len(t.x)}
      [] t.a = "nset" -> c \notin {t.x[k] : k \in 1..Len(t.x)}
      [] t.a = "rng"  -> \E k \in 1..Len(t.x) : c \in t.x[k][1]..t.x[k][2]
      [] t.a = "nrng" -> \A k \in 1..Len(t.x) : c \notin t.x[k][1]..t.x[k][2]
      [] t.a = "grp"  -> \E k \in 1..Len(t.x) : InItem(t.x[k], c)
RECURSIVE RunLen(_, _)
RunLen(f, cs) == IF cs = <<>> THEN 0
                 ELSE IF Stands(f.t, Head(cs)) # f.neg THEN 1 + RunLen(f, Tail(cs)) ELSE 0
LawForm ==
    LET n == RunLen(Form, Inp.cs)
        m == IF Form.hi >= 0 /\ n > Form.hi THEN Form.hi ELSE n
    IN /\ res.ok <=> n >= Form.lo
       /\ res.ok => /\ res.b = 0 /\ res.off = res.n
                    /\ res.n = LitLen(Inp.k, SubSeq(Inp.cs, 1, m))
(* quoted text: cut into escapes and plain characters from the left *)
RECURSIVE Quoted(_, _, _)
Quoted(q, cs, n) ==
    IF cs = <<>> THEN n
    ELSE IF Len(cs) >= 2 /\ cs[1] = q[2] /\ \E k \in 1..Len(q[3]) : q[3][k] = cs[2] THEN Quoted(q, SubSeq(cs, 3, Len(cs)), n + 2)
    ELSE IF cs[1] # q[1] THEN Quoted(q, Tail(cs), n + 1) ELSE n
LawEsc == res.ok /\ res.b = 0 /\ res.off = res.n /\ res.n = Quoted(Form.t.x, Inp.cs, 0)
LawP26 == Done => IF Form.t.a = "esc" THEN LawEsc ELSE LawForm
=============================================================================
