-------------------------------- MODULE NSem --------------------------------
(***************************************************************************)
(* Semantics of patterns: what one matching or constructing operation does *)
(* to the cursor, what it returns and in which order it calls the user's   *)
(* functions.  Patterns are records tagged by "t" (see the constructors at *)
(* the end).  Three mutually recursive operators mirror the three ways the *)
(* implementation evaluates a pattern:                                     *)
(*                                                                         *)
(*   Mat(cx,p,off,h)    an attempt through the context: the skip policy,   *)
(*                      then the pattern; a failure restores the cursor    *)
(*   Parse(cx,p,off,h)  the pattern itself, without the attempt around it  *)
(*   Con(cx,p,off,h)    construction of a value                            *)
(*                                                                         *)
(* Every operator maps the cursor off and the log h of user calls made so  *)
(* far to a result record:                                                 *)
(*   ok   success              off  cursor afterwards                      *)
(*   b,n  reported span        v    constructed value                      *)
(*   h    log of user calls    e    error ("" when ok, "*" any error)      *)
(***************************************************************************)
EXTENDS NUnit

Res(ok, off, b, n, v, h, e) ==
    [ok |-> ok, off |-> off, b |-> b, n |-> n, v |-> v, h |-> h, e |-> e]
Ok(off, b, n, h)  == Res(TRUE, off, b, n, <<>>, h, "")
OkV(off, v, h)    == Res(TRUE, off, 0, 0, v, h, "")
Er(off, e, h)     == Res(FALSE, off, 0, 0, <<>>, h, e)

(* accumulation of spans: the end becomes the end of the added span *)
Ext(b, s) == s.b + s.n - b

SpanV(b, n) == <<"s", b, n>>

NoMax == -1

RECURSIVE Mat(_, _, _, _), Parse(_, _, _, _), Con(_, _, _, _)

(***************************************************************************)
(* User code of the models.                                                *)
(***************************************************************************)
(* the handler invoked on a captured piece *)
CallsH(h) == Len(SelectSeq(h, LAMBDA x : x[1] = "h"))

RECURSIVE HasCode(_, _, _, _)
HasCode(cx, b, e, c) == IF b >= e THEN FALSE
                        ELSE cx.dat[b + 1] = c \/ HasCode(cx, b + 1, e, c)

Handle(cx, r) ==     \* r: result of the match of the piece
    LET h2 == Append(r.h, <<"h", r.b, r.n, r.off>>)
        bad == CASE cx.hd.t = "ok"  -> FALSE
                 [] cx.hd.t = "nth" -> CallsH(r.h) + 1 = cx.hd.k
                 [] cx.hd.t = "chr" -> HasCode(cx, r.b, r.b + r.n, cx.hd.k)
    IN IF bad THEN Er(r.off, "Uid900", h2) ELSE OkV(r.off, SpanV(r.b, r.n), h2)

LeafCon(cx, p, off, h) ==
    LET r == Mat(cx, p, off, h) IN IF r.ok THEN Handle(cx, r) ELSE r

(* test of a branch; a closure of the context *)
TestB(cx, f, off) ==
    CASE f.f = "at"   -> IF off = f.k THEN "T" ELSE "F"
      [] f.f = "pk"   -> IF Valid(cx, off) /\ ~AtEnd(cx, off) /\ Item(cx, off) = f.k THEN "T" ELSE "F"
      [] f.f = "yes"  -> "T"
      [] f.f = "no"   -> "F"
      [] f.f = "err"  -> IF Valid(cx, off) /\ ~AtEnd(cx, off) /\ Item(cx, off) = f.k THEN "E" ELSE "T"

(* function of a dynamic pattern, given the span [b,b+n) of the first part *)
(* yields [ok, off (cursor after the function ran), p, e]                  *)
DynF(cx, f, off, b, n) ==
    CASE f.f = "same" -> [ok |-> TRUE, off |-> off, e |-> "",
                          p |-> [t |-> "lit", s |-> Codes(cx, b, b + n), w |-> "str"]]
      [] f.f = "len"  -> [ok |-> TRUE, off |-> off, e |-> "",
                          p |-> [t |-> "times", lk |-> "i", lo |-> n, hk |-> "i", hi |-> n,
                                 u |-> [u |-> "always"], c |-> [c |-> "none"]]]
      [] f.f = "pat"  -> [ok |-> TRUE, off |-> off, e |-> "", p |-> f.p]
      [] f.f = "adv"  -> [ok |-> TRUE, off |-> off + f.k, e |-> "", p |-> f.p]
      [] f.f = "err"  -> [ok |-> FALSE, off |-> off + f.k, e |-> "Uid800", p |-> [t |-> "empty"]]
      [] f.f = "cond" -> IF n > f.k
                         THEN [ok |-> TRUE, off |-> off, e |-> "", p |-> f.p]
                         ELSE [ok |-> FALSE, off |-> off, e |-> "Uid801", p |-> [t |-> "empty"]]

(* conversions of a value *)
MapV(m, v) ==
    CASE m.m = "id"   -> [ok |-> TRUE, v |-> v, e |-> ""]
      [] m.m = "tag"  -> [ok |-> TRUE, v |-> <<"t", m.k, v>>, e |-> ""]
      [] m.m = "err"  -> [ok |-> FALSE, v |-> <<>>, e |-> "Uid700"]
      [] m.m = "short" -> \* fails on pieces longer than k
                          IF v[1] = "s" /\ v[3] > m.k THEN [ok |-> FALSE, v |-> <<>>, e |-> "Uid701"]
                          ELSE [ok |-> TRUE, v |-> v, e |-> ""]
      [] m.m = "sel0" -> [ok |-> TRUE, v |-> v[2], e |-> ""]
      [] m.m = "sel1" -> [ok |-> TRUE, v |-> v[3], e |-> ""]
      [] m.m = "seleq" -> IF v[2] = v[3] THEN [ok |-> TRUE, v |-> v, e |-> ""]
                          ELSE [ok |-> FALSE, v |-> <<>>, e |-> "SelectEq"]
      [] m.m = "selneq" -> IF v[2] # v[3] THEN [ok |-> TRUE, v |-> v, e |-> ""]
                           ELSE [ok |-> FALSE, v |-> <<>>, e |-> "SelectNeq"]

(* condition attached to a quantified unit; o0: cursor where the quantifier *)
(* started, o: position of the item                                         *)
Cond(cx, c, o0, o) ==
    CASE c.c = "none" -> "T"
      [] c.c = "idx"  -> IF o - o0 < c.k THEN "T" ELSE "F"
      [] c.c = "not"  -> IF Item(cx, o) = c.k THEN "F" ELSE "T"
      [] c.c = "err"  -> IF Item(cx, o) = c.k THEN "E" ELSE "T"
      [] c.c = "rx"   -> IF Mat(SubCtx(cx, o), c.p, 0, <<>>).ok THEN "T" ELSE "F"

(***************************************************************************)
(* Quantified units: the longest run of accepted items, at most max.       *)
(***************************************************************************)
(* in pieces of at most k steps, since TLC pays for the depth of a recursion *)
Piece == 250
RECURSIVE RunK(_, _, _, _, _, _, _, _)
RunK(cx, u, c, max, o0, o, cnt, k) ==
    IF cnt = max \/ AtEnd(cx, o) THEN [cnt |-> cnt, off |-> o, err |-> FALSE, more |-> FALSE]
    ELSE IF k = 0 THEN [cnt |-> cnt, off |-> o, err |-> FALSE, more |-> TRUE]
    ELSE IF ~UM(u, Item(cx, o)) THEN [cnt |-> cnt, off |-> o, err |-> FALSE, more |-> FALSE]
    ELSE LET t == Cond(cx, c, o0, o)
         IN IF t = "E" THEN [cnt |-> cnt, off |-> o, err |-> TRUE, more |-> FALSE]
            ELSE IF t = "F" THEN [cnt |-> cnt, off |-> o, err |-> FALSE, more |-> FALSE]
            ELSE RunK(cx, u, c, max, o0, Next1(cx, o), cnt + 1, k - 1)
RECURSIVE Run(_, _, _, _, _, _, _)
Run(cx, u, c, max, o0, o, cnt) ==
    LET s == RunK(cx, u, c, max, o0, o, cnt, Piece)
    IN IF s.more THEN Run(cx, u, c, max, o0, s.off, s.cnt) ELSE s

CountIn(lk, lo, hk, hi, cnt) == InRange([lk |-> lk, lo |-> lo, hk |-> hk, hi |-> hi], cnt)

MaxOf(hk, hi) == CASE hk = "u" -> NoMax
                   [] hk = "i" -> hi
                   [] hk = "x" -> IF hi = 0 THEN 0 ELSE hi - 1

(* soft: peeking at an unreadable position means "nothing to match" *)
Quant(cx, p, max, okcnt(_), soft, err, off, h) ==
    IF ~Valid(cx, off) THEN (IF soft THEN Ok(off, off, 0, h) ELSE Er(off, "OutOfBound", h))
    ELSE LET r == Run(cx, p.u, p.c, max, off, off, 0)
         IN IF r.err THEN Er(off, IF okcnt(0) \/ okcnt(1) THEN "Uid600" ELSE "*", h)
            ELSE IF okcnt(r.cnt) THEN Ok(r.off, off, r.off - off, h)
            ELSE Er(off, err, h)

NThen(cx, p, off, h) ==
    IF ~Valid(cx, off) THEN Er(off, "OutOfBound", h)
    ELSE IF AtEnd(cx, off) THEN Er(off, "NeureThen", h)
    ELSE LET o2 == Next1(cx, off)
             c1 == UM(p.u, Item(cx, off))
             t1 == IF c1 THEN Cond(cx, p.c, off, off) ELSE "F"
         IN IF AtEnd(cx, o2) THEN Er(off, IF t1 = "E" THEN "*" ELSE "NeureThen", h)
            ELSE IF t1 = "E" THEN Er(off, IF p.c.c = "err" THEN "*" ELSE "Uid600", h)
            ELSE IF t1 = "F" THEN Er(off, "NeureThen", h)
            ELSE LET c2 == UM(p.v, Item(cx, o2))
                     t2 == IF c2 THEN Cond(cx, p.c, off, o2) ELSE "F"
                     o3 == Next1(cx, o2)
                 IN IF t2 = "E" THEN Er(off, "Uid600", h)
                    ELSE IF t2 = "F" THEN Er(off, "NeureThen", h)
                    ELSE Ok(o3, off, o3 - off, h)

Literal(cx, p, off, h) ==
    LET s == Slots(cx.k, p.s)
    IN IF Len(s) > 0 /\ cx.n - off < Len(s) THEN Er(off, "Literal", h)
       ELSE IF ~Valid(cx, off) THEN Er(off, "OutOfBound", h)
       ELSE IF SubSeq(cx.dat, off + 1, off + Len(s)) = s
            THEN Ok(off + Len(s), off, Len(s), h)
            ELSE Er(off, "Literal", h)

(***************************************************************************)
(* An attempt through the context.                                         *)
(***************************************************************************)
Policy(cx, off, h) == IF cx.pol = <<>> THEN Ok(off, off, 0, h)
                      ELSE Parse([cx EXCEPT !.pol = <<>>], cx.pol[1], off, h)

Mat(cx, p, off, h) ==
    LET s == Policy(cx, off, h)
    IN IF ~s.ok THEN Er(off, s.e, s.h)
       ELSE LET r == Parse(cx, p, s.off, s.h)
            IN IF r.ok THEN r ELSE Er(off, r.e, r.h)

(* parts one after the other; the span starts with b0, or, if b0 < 0, with *)
(* the span of the first part                                              *)
RECURSIVE Chain(_, _, _, _, _, _, _)
Chain(cx, ps, i, off, b, n, h) ==
    IF i > Len(ps) THEN Ok(off, b, n, h)
    ELSE LET r == Mat(cx, ps[i], off, h)
         IN IF ~r.ok THEN r
            ELSE LET b2 == IF b < 0 THEN r.b ELSE b
                 IN Chain(cx, ps, i + 1, r.off, b2, Ext(b2, r), r.h)

SeqOf(cx, ps, b0, off, h) ==
    LET r == Chain(cx, ps, 1, off, b0, 0, h) IN IF r.ok THEN r ELSE Er(off, r.e, r.h)

(* alternatives, first success *)
RECURSIVE FirstM(_, _, _, _, _, _)
FirstM(cx, ps, i, off, h, e) ==
    IF i > Len(ps) THEN Er(off, e, h)
    ELSE LET r == Mat(cx, ps[i], off, h)
         IN IF r.ok THEN r ELSE FirstM(cx, ps, i + 1, off, r.h, e)

(* alternatives, longest span, earliest on ties *)
RECURSIVE LongM(_, _, _, _, _, _)
LongM(cx, ps, i, off, best, h) ==      \* best: <<>> or <<result>>
    IF i > Len(ps) THEN [best |-> best, h |-> h]
    ELSE LET r == Mat(cx, ps[i], off, h)
             b2 == IF r.ok /\ (best = <<>> \/ r.n > best[1].n) THEN <<r>> ELSE best
         IN LongM(cx, ps, i + 1, off, b2, r.h)

LongestM(cx, ps, off, h, e) ==
    LET l == LongM(cx, ps, 1, off, <<>>, h)
    IN IF l.best = <<>> THEN Er(off, e, l.h)
       ELSE Ok(l.best[1].off, l.best[1].b, l.best[1].n, l.h)

ArrErr(p) == CASE p.w = "array" -> (IF p.t = "arr" THEN "Array" ELSE "PairArray")
               [] p.w = "slice" -> (IF p.t = "arr" THEN "Slice" ELSE "PairSlice")
               [] p.w = "vec"   -> (IF p.t = "arr" THEN "Vector" ELSE "PairVector")

(* repetition while below max; yields [cnt, off, n, h] relative to span start b *)
RECURSIVE RepK(_, _, _, _, _, _, _, _, _)
RepK(cx, p, max, cnt, off, b, n, h, k) ==
    IF cnt = max \/ k = 0 THEN [cnt |-> cnt, off |-> off, n |-> n, h |-> h, more |-> cnt # max]
    ELSE LET r == Mat(cx, p, off, h)
         IN IF ~r.ok THEN [cnt |-> cnt, off |-> off, n |-> n, h |-> r.h, more |-> FALSE]
            ELSE RepK(cx, p, max, cnt + 1, r.off, b, Ext(b, r), r.h, k - 1)
RECURSIVE RepM(_, _, _, _, _, _, _, _)
RepM(cx, p, max, cnt, off, b, n, h) ==
    LET s == RepK(cx, p, max, cnt, off, b, n, h, Piece)
    IN IF s.more THEN RepM(cx, p, max, s.cnt, s.off, b, s.n, s.h) ELSE s

(* separated lists *)
RECURSIVE SepK(_, _, _, _, _, _, _, _, _)
SepK(cx, p, max, cnt, off, b, n, h, k) ==
    LET done(hh) == [cnt |-> cnt, off |-> off, n |-> n, h |-> hh, more |-> FALSE]
    IN IF cnt = max THEN done(h)
       ELSE IF k = 0 THEN [done(h) EXCEPT !.more = TRUE]
       ELSE LET r == Mat(cx, p.p, off, h)
            IN IF ~r.ok THEN done(r.h)
               ELSE LET s == Mat(cx, p.s, r.off, r.h)
                    IN IF s.ok THEN SepK(cx, p, max, cnt + 1, s.off, b, Ext(b, s), s.h, k - 1)
                       ELSE IF p.skip
                            THEN [cnt |-> cnt + 1, off |-> r.off, n |-> Ext(b, r), h |-> s.h, more |-> FALSE]
                            ELSE done(s.h)
RECURSIVE SepM(_, _, _, _, _, _, _, _)
SepM(cx, p, max, cnt, off, b, n, h) ==
    LET s == SepK(cx, p, max, cnt, off, b, n, h, Piece)
    IN IF s.more THEN SepM(cx, p, max, s.cnt, s.off, b, s.n, s.h) ELSE s

SepErr(p) == CASE p.t = "sep" -> "Separate" [] p.t = "sep2" -> "Separate2" [] p.t = "sepc" -> "SepCollect"
SepMax(p) == IF p.t = "sep2" THEN p.max ELSE NoMax

Body(cx, k) == cx.env[Len(cx.env) - k]
EnvAt(cx, k) == [cx EXCEPT !.env = SubSeq(cx.env, 1, Len(cx.env) - k)]
Enter(cx, p) == [cx EXCEPT !.env = Append(cx.env, p.p)]

(* wrappers of which the value is built by the wrapped pattern; the others *)
(* capture the wrapped pattern as one piece                                *)
LeafWraps == {"rx_into_ctor", "rx_box", "rx_rc", "rx_arc", "rx_cell", "rx_refcell", "rx_mutex",
              "rx_dynbox", "rx_dynbox_send", "rx_dynbox_sync", "rx_dynarc", "rx_dynarc_send",
              "rx_dynarc_sync", "rx_dynrc", "rx_dynrc_send", "as_ctor", "as_dyn_regex",
              "boxdynregex", "rcdynregex", "fnregex"}
NoneWraps == {"none", "once_unset"}
LockWraps == {"rx_mutex", "mutex", "into_mutex"}
Taken(cx, p, h) == IF cx.lk /\ p.w \in LockWraps THEN Append(h, <<"acq">>) ELSE h
Given(cx, p, r) == IF cx.lk /\ p.w \in LockWraps THEN [r EXCEPT !.h = Append(r.h, <<"rel">>)] ELSE r

Parse(cx, p, off, h) ==
  CASE p.t = "once"  -> Quant(cx, p, 1, LAMBDA n : n = 1, FALSE, "Once", off, h)
    [] p.t = "opt"   -> Quant(cx, p, 1, LAMBDA n : TRUE, TRUE, "", off, h)
    [] p.t = "many0" -> Quant(cx, p, NoMax, LAMBDA n : TRUE, TRUE, "", off, h)
    [] p.t = "many1" -> Quant(cx, p, NoMax, LAMBDA n : n >= 1, FALSE, "Many1", off, h)
    [] p.t = "btw"   -> Quant(cx, p, p.max, LAMBDA n : n >= p.min, FALSE, "Between", off, h)
    [] p.t = "times" -> Quant(cx, p, MaxOf(p.hk, p.hi),
                              LAMBDA n : CountIn(p.lk, p.lo, p.hk, p.hi, n), FALSE, "Times", off, h)
    [] p.t = "nthen" -> NThen(cx, p, off, h)
    [] p.t = "lit"   -> Literal(cx, p, off, h)
    [] p.t = "then"  -> SeqOf(cx, <<p.l, p.r>>, -1, off, h)
    [] p.t = "or"    ->
         LET l == Mat(cx, p.l, off, h) IN IF l.ok THEN l ELSE Mat(cx, p.r, off, l.h)
    [] p.t = "ifthen" ->
         LET l == Mat(cx, p.l, off, h)
         IN IF ~l.ok THEN l
            ELSE LET t == Mat(cx, p.i, l.off, l.h)
                 IN IF ~t.ok THEN Ok(l.off, l.b, l.n, t.h)
                    ELSE LET r == Mat(cx, p.r, t.off, t.h)
                         IN IF r.ok THEN Ok(r.off, l.b, Ext(l.b, r), r.h) ELSE Er(off, r.e, r.h)
    [] p.t = "enclose" -> SeqOf(cx, <<p.o, p.p, p.c>>, -1, off, h)
    [] p.t = "prefix"  -> SeqOf(cx, <<p.x, p.p>>, -1, off, h)
    [] p.t = "suffix"  -> SeqOf(cx, <<p.p, p.x>>, -1, off, h)
    [] p.t = "seponce" -> SeqOf(cx, <<p.l, p.s, p.r>>, off, off, h)
    [] p.t = "longest" ->
         LET l == Mat(cx, p.l, off, h)
             r == Mat(cx, p.r, off, l.h)
         IN IF l.ok /\ (~r.ok \/ l.n >= r.n) THEN Ok(l.off, l.b, l.n, r.h) ELSE r
    [] p.t = "optp" ->
         LET r == Mat(cx, p.p, off, h) IN IF r.ok THEN r ELSE Ok(off, off, 0, r.h)
    [] p.t = "branch" ->
         LET t == TestB(cx, p.f, off)
             h2 == Append(h, <<"t", off>>)
         IN IF t = "E" THEN Er(off, "Uid500", h2)
            ELSE Mat(cx, IF t = "T" THEN p.l ELSE p.r, off, h2)
    [] p.t = "collect" ->
         LET r == RepM(cx, p.p, NoMax, 0, off, off, 0, h)
         IN IF r.cnt >= p.min THEN Ok(r.off, off, r.n, r.h) ELSE Er(off, "Collect", r.h)
    [] p.t = "repeat" ->
         LET r == RepM(cx, p.p, MaxOf(p.hk, p.hi), 0, off, off, 0, h)
         IN IF CountIn(p.lk, p.lo, p.hk, p.hi, r.cnt) THEN Ok(r.off, off, r.n, r.h)
            ELSE Er(off, "Repeat", r.h)
    [] p.t = "rep2" ->
         LET r == RepM(cx, p.p, p.max, 0, off, off, 0, h)
         IN IF r.cnt >= p.min THEN Ok(r.off, off, r.n, r.h) ELSE Er(off, "Repeat2", r.h)
    [] p.t \in {"sep", "sep2", "sepc"} ->
         LET r == SepM(cx, p, SepMax(p), 0, off, off, 0, h)
         IN IF r.cnt >= p.min THEN Ok(r.off, off, r.n, r.h) ELSE Er(off, SepErr(p), r.h)
    [] p.t \in {"map", "pat"} -> Mat(cx, p.p, off, h)
    [] p.t = "assert" ->
         LET r == Mat(cx, p.p, off, h)
         IN IF r.ok = p.pos THEN Ok(off, off, 0, r.h)
            ELSE Er(off, IF p.pos THEN "AssertTrue" ELSE "AssertFalse", r.h)
    [] p.t = "start" -> IF off = 0 THEN Ok(off, off, 0, h) ELSE Er(off, "AnchorStart", h)
    [] p.t = "end"   -> IF off = cx.n THEN Ok(off, off, 0, h) ELSE Er(off, "AnchorEnd", h)
    [] p.t \in {"empty", "unit"} -> Ok(off, off, 0, h)
    [] p.t = "fail"  -> Er(off, "Fail", h)
    [] p.t = "cons"  -> IF p.k = 0 \/ cx.n - off >= p.k
                        THEN Ok(off + p.k, off, p.k, h) ELSE Er(off, "Consume", h)
    [] p.t = "consall" -> IF off >= cx.n THEN Ok(off, off, 0, h) ELSE Ok(cx.n, off, cx.n - off, h)
    [] p.t = "radv"  -> Ok(off + p.k, off, p.k, h)            \* a closure used as pattern
    [] p.t = "rfail" -> Er(off + p.k, "Uid400", h)            \* moves, then fails
    [] p.t = "rset"  -> Ok(p.k, p.k, 0, h)                    \* goes elsewhere, possibly back
    [] p.t = "arr"   -> IF p.ltm THEN LongestM(cx, p.ps, off, h, ArrErr(p))
                        ELSE FirstM(cx, p.ps, 1, off, h, ArrErr(p))
    [] p.t = "parr"  -> IF p.ltm THEN LongestM(cx, p.ps, off, h, ArrErr(p))
                        ELSE FirstM(cx, p.ps, 1, off, h, ArrErr(p))
    [] p.t = "irb"   ->
         LET s == Mat(cx, p.p, off, h)
         IN IF ~s.ok THEN s
            ELSE LET f == DynF(cx, p.f, s.off, s.b, s.n)
                     h2 == Append(s.h, <<"f", s.b, s.n, s.off>>)
                 IN IF ~f.ok THEN Er(off, f.e, h2)
                    ELSE LET r == Mat(cx, f.p, f.off, h2)
                         IN IF r.ok THEN r ELSE Er(off, r.e, r.h)
    [] p.t = "rec"   -> Parse(Enter(cx, p), p.p, off, h)
    [] p.t = "self"  -> LET c2 == EnvAt(cx, p.k) IN Parse(c2, Body(cx, p.k), off, h)
    [] p.t = "wrap"  -> IF p.w \in NoneWraps THEN Er(off, "Option", h)
                        ELSE Given(cx, p, Parse(cx, p.p, off, Taken(cx, p, h)))

(***************************************************************************)
(* Construction.                                                           *)
(***************************************************************************)
RECURSIVE FirstC(_, _, _, _, _, _)
FirstC(cx, ps, i, off, h, e) ==      \* v is paired with the index of the winner
    IF i > Len(ps) THEN Er(off, e, h)
    ELSE LET r == Con(cx, ps[i], off, h)
         IN IF r.ok THEN [r EXCEPT !.v = <<i, r.v>>] ELSE FirstC(cx, ps, i + 1, off, r.h, e)

RECURSIVE LongC(_, _, _, _, _, _)
LongC(cx, ps, i, off, best, h) ==
    IF i > Len(ps) THEN [best |-> best, h |-> h]
    ELSE LET r == Con(cx, ps[i], off, h)
             b2 == IF r.ok /\ (best = <<>> \/ r.off > best[1].off)
                   THEN <<[r EXCEPT !.v = <<i, r.v>>]>> ELSE best
         IN LongC(cx, ps, i + 1, off, b2, r.h)

LongestC(cx, ps, off, h, e) ==
    LET l == LongC(cx, ps, 1, off, <<>>, h)
    IN IF l.best = <<>> THEN Er(off, e, l.h) ELSE [l.best[1] EXCEPT !.h = l.h]

RECURSIVE RepC(_, _, _, _, _, _)
RepC(cx, p, max, vs, off, h) ==
    IF Len(vs) = max THEN [vs |-> vs, off |-> off, h |-> h]
    ELSE LET r == Con(cx, p, off, h)
         IN IF ~r.ok THEN [vs |-> vs, off |-> off, h |-> r.h]
            ELSE RepC(cx, p, max, Append(vs, r.v), r.off, r.h)

RECURSIVE SepC(_, _, _, _, _, _)
SepC(cx, p, max, vs, off, h) ==
    LET done(hh) == [vs |-> vs, off |-> off, h |-> hh]
    IN IF Len(vs) = max THEN done(h)
       ELSE LET r == Con(cx, p.p, off, h)
            IN IF ~r.ok THEN done(r.h)
               ELSE LET s == Mat(cx, p.s, r.off, r.h)
                    IN IF s.ok THEN SepC(cx, p, max, Append(vs, r.v), s.off, s.h)
                       ELSE IF p.skip
                            THEN [vs |-> Append(vs, r.v), off |-> r.off, h |-> s.h]
                            ELSE done(s.h)

Pad(vs, n) == [i \in 1..n |-> IF i <= Len(vs) THEN <<"o", vs[i]>> ELSE <<"o">>]

(* a guarded part: on failure the cursor goes back to off *)
Back(off, r) == Er(off, r.e, r.h)

Con(cx, p, off, h) ==
  CASE p.t \in {"once", "opt", "many0", "many1", "btw", "times", "nthen", "lit", "start", "end",
                "empty", "unit", "fail", "cons", "consall", "assert", "radv", "rfail", "rset", "irb"} ->
         LeafCon(cx, p, off, h)
    [] p.t = "pat" -> LeafCon(cx, p.p, off, h)
    [] p.t = "then" ->
         LET l == Con(cx, p.l, off, h)
         IN IF ~l.ok THEN Back(off, l)
            ELSE LET r == Con(cx, p.r, l.off, l.h)
                 IN IF ~r.ok THEN Back(off, r) ELSE OkV(r.off, <<"p", l.v, r.v>>, r.h)
    [] p.t = "or" ->
         LET l == Con(cx, p.l, off, h)
         IN IF l.ok THEN l
            ELSE LET r == Con(cx, p.r, off, l.h) IN IF r.ok THEN r ELSE Back(off, r)
    [] p.t = "ifthen" ->
         LET l == Con(cx, p.l, off, h)
         IN IF ~l.ok THEN Back(off, l)
            ELSE LET t == Mat(cx, p.i, l.off, l.h)
                 IN IF ~t.ok THEN OkV(l.off, <<"p", l.v, <<"o">>>>, t.h)
                    ELSE LET r == Con(cx, p.r, t.off, t.h)
                         IN IF ~r.ok THEN Back(off, r)
                            ELSE OkV(r.off, <<"p", l.v, <<"o", r.v>>>>, r.h)
    [] p.t = "enclose" ->
         LET o == Mat(cx, p.o, off, h)
         IN IF ~o.ok THEN Back(off, o)
            ELSE LET v == Con(cx, p.p, o.off, o.h)
                 IN IF ~v.ok THEN Back(off, v)
                    ELSE LET c == Mat(cx, p.c, v.off, v.h)
                         IN IF ~c.ok THEN Back(off, c) ELSE OkV(c.off, v.v, c.h)
    [] p.t = "prefix" ->
         LET x == Mat(cx, p.x, off, h)
         IN IF ~x.ok THEN Back(off, x)
            ELSE LET v == Con(cx, p.p, x.off, x.h) IN IF ~v.ok THEN Back(off, v) ELSE v
    [] p.t = "suffix" ->
         LET v == Con(cx, p.p, off, h)
         IN IF ~v.ok THEN Back(off, v)
            ELSE LET x == Mat(cx, p.x, v.off, v.h)
                 IN IF ~x.ok THEN Back(off, x) ELSE OkV(x.off, v.v, x.h)
    [] p.t = "seponce" ->
         LET l == Con(cx, p.l, off, h)
         IN IF ~l.ok THEN Back(off, l)
            ELSE LET s == Mat(cx, p.s, l.off, l.h)
                 IN IF ~s.ok THEN Back(off, s)
                    ELSE LET r == Con(cx, p.r, s.off, s.h)
                         IN IF ~r.ok THEN Back(off, r) ELSE OkV(r.off, <<"p", l.v, r.v>>, r.h)
    [] p.t = "longest" ->
         LET l == Con(cx, p.l, off, h)
             r == Con(cx, p.r, off, l.h)
         IN IF l.ok /\ (~r.ok \/ l.off >= r.off) THEN OkV(l.off, l.v, r.h)
            ELSE IF r.ok THEN r ELSE Back(off, r)
    [] p.t = "optp" ->
         LET r == Con(cx, p.p, off, h)
         IN IF r.ok THEN OkV(r.off, <<"o", r.v>>, r.h) ELSE OkV(off, <<"o">>, r.h)
    [] p.t = "branch" ->
         LET t == TestB(cx, p.f, off)
             h2 == Append(h, <<"t", off>>)
         IN IF t = "E" THEN Er(off, "Uid500", h2)
            ELSE LET r == Con(cx, IF t = "T" THEN p.l ELSE p.r, off, h2)
                 IN IF r.ok THEN r ELSE Back(off, r)
    [] p.t = "collect" ->
         LET r == RepC(cx, p.p, NoMax, <<>>, off, h)
         IN IF Len(r.vs) >= p.min THEN OkV(r.off, <<"l", r.vs>>, r.h) ELSE Er(off, "Collect", r.h)
    [] p.t = "repeat" ->
         LET r == RepC(cx, p.p, MaxOf(p.hk, p.hi), <<>>, off, h)
         IN IF CountIn(p.lk, p.lo, p.hk, p.hi, Len(r.vs)) THEN OkV(r.off, <<"l", r.vs>>, r.h)
            ELSE Er(off, "Repeat", r.h)
    [] p.t = "rep2" ->
         LET r == RepC(cx, p.p, p.max, <<>>, off, h)
         IN IF Len(r.vs) >= p.min THEN OkV(r.off, <<"l", Pad(r.vs, p.max)>>, r.h)
            ELSE Er(off, "Repeat2", r.h)
    [] p.t \in {"sep", "sep2", "sepc"} ->
         LET r == SepC(cx, p, SepMax(p), <<>>, off, h)
         IN IF Len(r.vs) >= p.min
            THEN OkV(r.off, <<"l", IF p.t = "sep2" THEN Pad(r.vs, p.max) ELSE r.vs>>, r.h)
            ELSE Er(off, SepErr(p), r.h)
    [] p.t = "map" ->
         LET r == Con(cx, p.p, off, h)
         IN IF ~r.ok THEN r
            ELSE LET m == MapV(p.m, r.v)
                     h2 == IF p.m.m \in {"id", "tag", "err", "short"} THEN Append(r.h, <<"m">>) ELSE r.h
                 IN IF m.ok THEN OkV(r.off, m.v, h2) ELSE Er(r.off, m.e, h2)
    [] p.t = "arr" ->
         LET r == IF p.ltm THEN LongestC(cx, p.ps, off, h, ArrErr(p))
                  ELSE FirstC(cx, p.ps, 1, off, h, ArrErr(p))
         IN IF r.ok THEN [r EXCEPT !.v = r.v[2]] ELSE r
    [] p.t = "parr" ->
         LET r == IF p.ltm THEN LongestC(cx, p.ps, off, h, ArrErr(p))
                  ELSE FirstC(cx, p.ps, 1, off, h, ArrErr(p))
         IN IF r.ok THEN [r EXCEPT !.v = <<"p", r.v[2], <<"k", p.ks[r.v[1]]>>>>] ELSE r
    [] p.t = "dthen" ->
         LET l == Con(cx, p.p, off, h)
         IN IF ~l.ok THEN Back(off, l)
            ELSE LET sp == IF l.v[1] = "s" THEN l.v ELSE <<"s", 0, 0>>  (* other values: nothing *)
                     f == DynF(cx, p.f, l.off, sp[2], sp[3])
                     h2 == Append(l.h, <<"f", sp[2], sp[3], l.off>>)
                 IN IF ~f.ok THEN Er(off, f.e, h2)
                    ELSE LET r == Con(cx, f.p, f.off, h2)
                         IN IF ~r.ok THEN Back(off, r) ELSE OkV(r.off, <<"p", l.v, r.v>>, r.h)
    [] p.t = "rec"  -> Con(Enter(cx, p), p.p, off, h)
    [] p.t = "self" -> LET c2 == EnvAt(cx, p.k) IN Con(c2, Body(cx, p.k), off, h)
    [] p.t = "wrap" -> IF p.w \in NoneWraps
                       THEN Er(off, "Option", h)
                       ELSE IF p.w \in LeafWraps THEN LeafCon(cx, p, off, h)
                       ELSE Given(cx, p, Con(cx, p.p, off, Taken(cx, p, h)))

(***************************************************************************)
(* Static facts about patterns.                                            *)
(***************************************************************************)
(* May p succeed without consuming (over-approximated)?                    *)
RECURSIVE Nullable(_)
Nullable(p) ==
  CASE p.t \in {"opt", "many0", "optp", "start", "end", "empty", "unit", "assert", "consall", "self", "rset"} -> TRUE
    [] p.t = "btw" -> p.min = 0
    [] p.t = "times" -> CountIn(p.lk, p.lo, p.hk, p.hi, 0)
    [] p.t = "lit" -> p.s = <<>>
    [] p.t = "cons" -> p.k = 0
    [] p.t = "radv" -> p.k = 0
    [] p.t \in {"then", "or", "longest", "branch"} ->
         IF p.t = "then" THEN Nullable(p.l) /\ Nullable(p.r) ELSE Nullable(p.l) \/ Nullable(p.r)
    [] p.t = "ifthen" -> Nullable(p.l)
    [] p.t = "seponce" -> Nullable(p.l) /\ Nullable(p.s) /\ Nullable(p.r)
    [] p.t = "enclose" -> Nullable(p.o) /\ Nullable(p.p) /\ Nullable(p.c)
    [] p.t \in {"prefix", "suffix"} -> Nullable(p.x) /\ Nullable(p.p)
    [] p.t \in {"collect", "rep2", "sep", "sep2", "sepc"} -> p.min = 0 \/ Nullable(p.p)
    [] p.t = "repeat" -> CountIn(p.lk, p.lo, p.hk, p.hi, 0) \/ Nullable(p.p)
    [] p.t \in {"map", "pat", "rec", "wrap", "irb", "dthen"} -> Nullable(p.p)
    [] p.t \in {"arr", "parr"} -> \E i \in 1..Len(p.ps) : Nullable(p.ps[i])
    [] OTHER -> FALSE

Kids(p) ==
  CASE p.t \in {"then", "or", "longest", "branch"} -> <<p.l, p.r>>
    [] p.t = "ifthen" -> <<p.l, p.i, p.r>>
    [] p.t = "seponce" -> <<p.l, p.s, p.r>>
    [] p.t = "enclose" -> <<p.o, p.p, p.c>>
    [] p.t \in {"prefix", "suffix"} -> <<p.x, p.p>>
    [] p.t \in {"sep", "sep2", "sepc"} -> <<p.p, p.s>>
    [] p.t \in {"collect", "rep2", "repeat", "optp", "map", "pat", "assert", "rec", "wrap"} -> <<p.p>>
    [] p.t \in {"irb", "dthen"} -> IF "p" \in DOMAIN p.f THEN <<p.p, p.f.p>> ELSE <<p.p>>
    [] p.t \in {"arr", "parr"} -> p.ps
    [] OTHER -> <<>>

(* every unbounded repetition repeats something that consumes input *)
RECURSIVE WF(_)
WF(p) ==
  /\ CASE p.t = "collect" -> ~Nullable(p.p)
       [] p.t = "repeat" -> p.hk # "u" \/ ~Nullable(p.p)
       [] p.t \in {"sep", "sepc"} -> ~(Nullable(p.p) /\ Nullable(p.s))
       [] OTHER -> TRUE
  /\ \A i \in 1..Len(Kids(p)) : WF(Kids(p)[i])

(* pattern has no meaning in recognise mode / no meaning in construct mode *)
RECURSIVE RegexOk(_)
RegexOk(p) == p.t # "dthen" /\ \A i \in 1..Len(Kids(p)) : RegexOk(Kids(p)[i])

RECURSIVE HasTag(_, _)
HasTag(p, ts) == p.t \in ts \/ \E i \in 1..Len(Kids(p)) : HasTag(Kids(p)[i], ts)

(***************************************************************************)
(* Constructors.                                                           *)
(***************************************************************************)
C0 == [c |-> "none"]
CIdx(k) == [c |-> "idx", k |-> k]
CNot(k) == [c |-> "not", k |-> k]
CErr(k) == [c |-> "err", k |-> k]
CRx(p)  == [c |-> "rx", p |-> p]

OnceC(u, c)  == [t |-> "once", u |-> u, c |-> c]
OptC(u, c)   == [t |-> "opt", u |-> u, c |-> c]
Many0C(u, c) == [t |-> "many0", u |-> u, c |-> c]
Many1C(u, c) == [t |-> "many1", u |-> u, c |-> c]
Once(u)  == OnceC(u, C0)
OptU(u)  == OptC(u, C0)
Many0(u) == Many0C(u, C0)
Many1(u) == Many1C(u, C0)
BtwC(m, n, u, c) == [t |-> "btw", min |-> m, max |-> n, u |-> u, c |-> c]
Btw(m, n, u) == BtwC(m, n, u, C0)
TimesC(lk, lo, hk, hi, u, c) == [t |-> "times", lk |-> lk, lo |-> lo, hk |-> hk, hi |-> hi, u |-> u, c |-> c]
Times(lk, lo, hk, hi, u) == TimesC(lk, lo, hk, hi, u, C0)
NThenC(u, v, c) == [t |-> "nthen", u |-> u, v |-> v, c |-> c]
NThenP(u, v) == NThenC(u, v, C0)
LitW(s, w) == [t |-> "lit", s |-> s, w |-> w]
Lit(s) == LitW(s, "str")
Start == [t |-> "start"]
End   == [t |-> "end"]
Empty == [t |-> "empty"]
UnitP == [t |-> "unit"]
Fail  == [t |-> "fail"]
Cons(k) == [t |-> "cons", k |-> k]
ConsAll == [t |-> "consall"]
RAdv(k)  == [t |-> "radv", k |-> k]
RFail(k) == [t |-> "rfail", k |-> k]
RSet(k)  == [t |-> "rset", k |-> k]
Then(l, r) == [t |-> "then", l |-> l, r |-> r]
Or(l, r)   == [t |-> "or", l |-> l, r |-> r]
Longest(l, r) == [t |-> "longest", l |-> l, r |-> r]
IfThen(l, i, r) == [t |-> "ifthen", l |-> l, i |-> i, r |-> r]
SepOnce(l, s, r) == [t |-> "seponce", l |-> l, s |-> s, r |-> r]
Enclose(o, p, c) == [t |-> "enclose", o |-> o, p |-> p, c |-> c]
PrefixP(x, p) == [t |-> "prefix", x |-> x, p |-> p]
SuffixP(p, x) == [t |-> "suffix", x |-> x, p |-> p]
OptP(p) == [t |-> "optp", p |-> p]
Branch(f, l, r) == [t |-> "branch", f |-> f, l |-> l, r |-> r]
FAt(k)  == [f |-> "at", k |-> k]
FPk(k)  == [f |-> "pk", k |-> k]
FYes    == [f |-> "yes"]
FNo     == [f |-> "no"]
FErr(k) == [f |-> "err", k |-> k]
Collect(p, m) == [t |-> "collect", p |-> p, min |-> m]
Repeat(p, lk, lo, hk, hi) == [t |-> "repeat", p |-> p, lk |-> lk, lo |-> lo, hk |-> hk, hi |-> hi]
Rep2(p, m, n) == [t |-> "rep2", p |-> p, min |-> m, max |-> n]
Sep(p, s, m, skip) == [t |-> "sep", p |-> p, s |-> s, min |-> m, skip |-> skip]
SepCol(p, s, m, skip) == [t |-> "sepc", p |-> p, s |-> s, min |-> m, skip |-> skip]
Sep2(p, s, m, n, skip) == [t |-> "sep2", p |-> p, s |-> s, min |-> m, max |-> n, skip |-> skip]
MapP(p, m) == [t |-> "map", p |-> p, m |-> m]
MId == [m |-> "id"]
MTag(k) == [m |-> "tag", k |-> k]
MErr == [m |-> "err"]
MShort(k) == [m |-> "short", k |-> k]
MSel0 == [m |-> "sel0"]
MSel1 == [m |-> "sel1"]
MSelEq == [m |-> "seleq"]
MSelNeq == [m |-> "selneq"]
Pat(p) == [t |-> "pat", p |-> p]
Peek(p) == [t |-> "assert", p |-> p, pos |-> TRUE]
NotP(p) == [t |-> "assert", p |-> p, pos |-> FALSE]
Arr(w, ltm, ps) == [t |-> "arr", w |-> w, ltm |-> ltm, ps |-> ps]
PArr(w, ltm, ps, ks) == [t |-> "parr", w |-> w, ltm |-> ltm, ps |-> ps, ks |-> ks]
Irb(p, f) == [t |-> "irb", p |-> p, f |-> f]
DThen(p, f) == [t |-> "dthen", p |-> p, f |-> f]
DSame == [f |-> "same"]
DLen  == [f |-> "len"]
DPat(p) == [f |-> "pat", p |-> p]
DAdv(k, p) == [f |-> "adv", k |-> k, p |-> p]
DErr(k) == [f |-> "err", k |-> k]
DCond(k, p) == [f |-> "cond", k |-> k, p |-> p]
Rec(p) == [t |-> "rec", p |-> p]
Self(k) == [t |-> "self", k |-> k]
Wrap(w, p) == [t |-> "wrap", w |-> w, p |-> p]
=============================================================================
