------------------------------- MODULE NMacro -------------------------------
(***************************************************************************)
(* The pattern notation: abstract forms, how they are written (Render) and *)
(* the pattern they stand for (Denote).  The driver compiles the written   *)
(* form with the macros of the implementation; the replayer compares it    *)
(* with the denoted pattern on every input.                                *)
(*                                                                         *)
(* An atom is [a |-> kind, x |-> items, s |-> how characters are written]: *)
(*   s = "i" identifiers, "l" character literals, "b" byte literals        *)
(***************************************************************************)
EXTENDS NFamilies

Ident1(c) == CASE c = 97 -> "a" [] c = 98 -> "b" [] c = 99 -> "c" [] c = 122 -> "z" [] c = 65 -> "A" [] c = 90 -> "Z"
               [] c = 233 -> "\\u00e9" [] c = 20013 -> "\\u4e2d"
LitOf(c) == CASE c = 97 -> "a" [] c = 98 -> "b" [] c = 99 -> "c" [] c = 122 -> "z" [] c = 65 -> "A" [] c = 90 -> "Z"
              [] c = 32 -> " " [] c = 10 -> "\\n" [] c = 45 -> "-" [] c = 94 -> "^" [] c = 34 -> "\\x22" [] c = 92 -> "\\\\"
              [] c = 48 -> "0" [] c = 57 -> "9" [] c = 39 -> "\\'" [] c = 110 -> "n"
              [] c = 233 -> "\\u{e9}" [] c = 20013 -> "\\u{4e2d}" [] c = 128512 -> "\\u{1f600}"
              [] c = 255 -> "\\xff" [] c = 0 -> "\\x00"
Wr(s, c) == IF s = "i" THEN Ident1(c) ELSE IF s = "l" THEN "'" \o LitOf(c) \o "'" ELSE "b'" \o LitOf(c) \o "'"

RECURSIVE Join(_, _)
Join(ss, d) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o d \o Join(Tail(ss), d)

Atom(k, x, s) == [a |-> k, x |-> x, s |-> s]
(* items of a group, each an expression *)
RECURSIVE Item_(_, _)
Item_(s, i) == CASE i.u = "chr" -> Wr(s, i.c)
                 [] i.u = "rng" -> Wr(s, i.lo) \o (IF i.hk = "i" THEN "..=" ELSE "..") \o Wr(s, i.hi)
                 [] i.u = "cls" -> "neure::neu::" \o i.cl \o "()"
                 [] i.u = "set" -> "[" \o Join([k \in 1..Len(i.cs) |-> Wr(s, i.cs[k])], ", ") \o "]"
                 [] i.u = "not" -> Item_(s, i.x) \o ".not()"
RenderA(t) ==
    CASE t.a = "ws"    -> ""
      [] t.a = "nws"   -> "^"
      [] t.a = "wild"  -> "."
      [] t.a = "chr"   -> Wr(t.s, t.x[1])
      [] t.a = "set"   -> "[" \o Join([i \in 1..Len(t.x) |-> Wr(t.s, t.x[i])], " ") \o "]"
      [] t.a = "nset"  -> "[^ " \o Join([i \in 1..Len(t.x) |-> Wr(t.s, t.x[i])], " ") \o "]"
      [] t.a = "rng"   -> "[" \o Join([i \in 1..Len(t.x) |-> Wr(t.s, t.x[i][1]) \o " - " \o Wr(t.s, t.x[i][2])], " ") \o "]"
      [] t.a = "nrng"  -> "[^ " \o Join([i \in 1..Len(t.x) |-> Wr(t.s, t.x[i][1]) \o " - " \o Wr(t.s, t.x[i][2])], " ") \o "]"
      [] t.a = "grp"   -> "(" \o Join([i \in 1..Len(t.x) |-> Item_(t.s, t.x[i])], ", ") \o ")"
RECURSIVE OrAll(_)
OrAll(us) == IF us = <<>> THEN NeverU ELSE OrU(us[1], OrAll(Tail(us)))
DenoteA(t) ==
    CASE t.a = "ws"    -> ClsU("whitespace")
      [] t.a = "nws"   -> NotU(ClsU("whitespace"))
      [] t.a = "wild"  -> ClsU("wild")
      [] t.a = "chr"   -> Chr(t.x[1])
      [] t.a = "set"   -> Set_(t.x)
      [] t.a = "nset"  -> NotU(Set_(t.x))
      [] t.a = "rng"   -> OrAll([i \in 1..Len(t.x) |-> RngI(t.x[i][1], t.x[i][2])])
      [] t.a = "nrng"  -> NotU(OrAll([i \in 1..Len(t.x) |-> RngI(t.x[i][1], t.x[i][2])]))
      [] t.a = "grp"   -> OrAll(t.x)

(* suffixes: written, smallest and largest count *)
Quants == <<<<"", 1, 1>>, <<"?", 0, 1>>, <<"*", 0, NoMax>>, <<"+", 1, NoMax>>, <<"{2}", 2, 2>>, <<"{1,}", 1, NoMax>>, <<"{0,}", 0, NoMax>>,
            <<"{2,}", 2, NoMax>>, <<"{1, 2}", 1, 2>>, <<"{0,1}", 0, 1>>, <<"{2,3}", 2, 3>>, <<"{0}", 0, 0>>, <<"{1}", 1, 1>>>>
QPat(q, u) == CASE q[1] = "" -> Once(u) [] q[1] = "?" -> OptU(u) [] q[1] = "*" -> Many0(u) [] q[1] = "+" -> Many1(u)
                [] OTHER -> Btw(q[2], q[3], u)

(* the same quantifiers applied to neu!(..), which has none of its own *)
NeuQ == <<<<".once()", 1, 1>>, <<".many0()", 0, NoMax>>, <<".many1()", 1, NoMax>>, <<".opt()", 0, 1>>, <<".not().many1()", -1, -1>>>>
NeuPat(q, u) == CASE q[1] = ".once()" -> Once(u) [] q[1] = ".many0()" -> Many0(u) [] q[1] = ".many1()" -> Many1(u)
                  [] q[1] = ".opt()" -> OptU(u) [] OTHER -> Many1(NotU(u))

RFm(t, q) == [src |-> "regex!(" \o RenderA(t) \o q[1] \o ")", p |-> QPat(q, DenoteA(t)), t |-> t, lo |-> q[2], hi |-> q[3], neg |-> FALSE]
NFm(t, q) == [src |-> "neu!(" \o RenderA(t) \o ")" \o q[1], p |-> NeuPat(q, DenoteA(t)), t |-> t,
              lo |-> IF q[2] < 0 THEN 1 ELSE q[2], hi |-> q[3], neg |-> q[2] < 0]
(* several atoms cannot be written with every surface *)
TextAtoms ==
    <<Atom("ws", <<>>, "i"), Atom("nws", <<>>, "i"), Atom("wild", <<>>, "i"),
      Atom("chr", <<a_>>, "i"), Atom("chr", <<a_>>, "l"), Atom("chr", <<ea>>, "i"), Atom("chr", <<nl>>, "l"), Atom("chr", <<em>>, "l"), Atom("chr", <<45>>, "l"),
      Atom("set", <<a_, b_>>, "i"), Atom("set", <<a_>>, "i"), Atom("set", <<a_, zh, 122>>, "i"), Atom("set", <<b_, sp>>, "l"), Atom("set", <<sp, nl, em>>, "l"), Atom("set", <<94, 45>>, "l"),
      Atom("nset", <<a_, b_>>, "i"), Atom("nset", <<a_>>, "i"), Atom("nset", <<sp, b_>>, "l"), Atom("nset", <<a_>>, "l"), Atom("nset", <<ea, nl>>, "l"),
      Atom("rng", <<<<a_, c_>>>>, "i"), Atom("rng", <<<<a_, c_>>>>, "l"), Atom("rng", <<<<b_, b_>>>>, "i"), Atom("rng", <<<<b_, b_>>>>, "l"), Atom("rng", <<<<c_, a_>>>>, "i"),
      Atom("rng", <<<<c_, a_>>>>, "l"), Atom("rng", <<<<ea, zh>>>>, "i"), Atom("rng", <<<<ea, zh>>>>, "l"),
      Atom("rng", <<<<a_, b_>>, <<65, 90>>>>, "i"), Atom("rng", <<<<a_, b_>>, <<65, 90>>>>, "l"), Atom("rng", <<<<48, 57>>, <<zh, em>>, <<a_, a_>>>>, "l"),
      Atom("nrng", <<<<a_, b_>>>>, "i"), Atom("nrng", <<<<a_, b_>>>>, "l"), Atom("nrng", <<<<b_, 122>>, <<65, 65>>>>, "i"), Atom("nrng", <<<<b_, 122>>, <<zh, em>>>>, "l"),
      Atom("nrng", <<<<a_, zh>>>>, "i"),
      Atom("grp", <<Chr(a_)>>, "l"), Atom("grp", <<RngI(a_, b_), Chr(sp)>>, "l"), Atom("grp", <<RngI(a_, b_), ClsU("ascii_uppercase"), Chr(zh)>>, "l"),
      Atom("grp", <<Set_(<<a_, em>>), Rng("i", b_, "x", 122, "std")>>, "l"), Atom("grp", <<NotU(Chr(a_)), Chr(nl)>>, "l")>>
ByteAtoms ==
    <<Atom("chr", <<a_>>, "b"), Atom("chr", <<255>>, "b"), Atom("set", <<a_, 255>>, "b"), Atom("set", <<b_>>, "b"), Atom("nset", <<a_, 0>>, "b"),
      Atom("rng", <<<<a_, c_>>>>, "b"), Atom("rng", <<<<0, a_>>>>, "b"), Atom("rng", <<<<a_, a_>>, <<0, 0>>>>, "b"), Atom("nrng", <<<<a_, b_>>>>, "b"), Atom("nrng", <<<<b_, 255>>, <<0, 0>>>>, "b"),
      Atom("grp", <<Chr(a_), RngI(b_, 255)>>, "b"), Atom("grp", <<Set_(<<a_, 0>>), Chr(255)>>, "b"), Atom("grp", <<NotU(Chr(a_))>>, "b")>>
(* a quantifier in braces after nothing is not a form *)
RForms(At) == Map2(RFm, At, Quants)
NForms(At) == Map2(NFm, At, NeuQ)

(* quoted text: everything but the quote, with escapes taken as pairs *)
EscP(p, es) == NThenP(Chr(p), Set_(es))
EscPat(q, p, es) ==
    Pat(Repeat(Or(Many1C(NotU(Chr(q)), CRx(NotP(EscP(p, es)))), EscP(p, es)), "i", 0, "u", 0))
EscFm(s, q, p, es) ==
    [src |-> "escape_strval!(" \o Wr(s, q) \o ", " \o Wr(s, p) \o ", [" \o Join([i \in 1..Len(es) |-> Wr(s, es[i])], ", ") \o "])",
     p |-> EscPat(q, p, es), t |-> [a |-> "esc", x |-> <<q, p, es>>, s |-> s], lo |-> 0, hi |-> NoMax, neg |-> FALSE]
EscForms(s) == <<EscFm(s, 34, 92, <<34, 92>>), EscFm(s, 34, 92, <<110>>), EscFm(s, 34, 92, <<34, 110>>), EscFm(s, a_, b_, <<a_, c_>>), EscFm(s, a_, b_, <<b_>>)>>

TF1 == RForms(TextAtoms)
TF2 == NForms(TextAtoms)
BF  == RForms(ByteAtoms) \o NForms(ByteAtoms)
EF  == EscForms("l")
EB  == EscForms("b")
(* long runs *)
LF == RForms(<<Atom("chr", <<a_>>, "i"), Atom("set", <<a_, zh, 122>>, "i"), Atom("nset", <<sp, b_>>, "l")>>)
Src == <<TF1 \o TF2, TF1, BF, EF, EB, LF>>

Pats(fs) == Map1(LAMBDA f : f.p, fs)
MacroGroups0 ==
  <<[Grp0(Pats(Src[1]), Text(<<<<>>>> \o One(<<a_, b_, c_, 122, 65, 90, sp, nl, 48, 57, 45, 94, ea, zh, em>>))) EXCEPT !.er = FALSE],
    [Grp0(Pats(Src[2]), Text(Strs(<<a_, b_, sp, zh>>, Sz(3, 5)))) EXCEPT !.er = FALSE],
    [Grp0(Pats(Src[3]), Bytes(Strs(<<a_, b_, 0, 255>>, Sz(3, 5)))) EXCEPT !.er = FALSE],
    [Grp0(Pats(Src[4]), Text(Strs(<<34, 92, 110>>, Sz(5, 8))) \o Text(Strs(<<a_, b_, c_>>, Sz(5, 8)))) EXCEPT !.er = FALSE],
    [Grp0(Pats(Src[5]), Bytes(Strs(<<34, 92, 110>>, Sz(4, 7))) \o Bytes(Strs(<<a_, b_, c_>>, Sz(4, 7)))) EXCEPT !.er = FALSE],
    [Grp0(Pats(Src[6]), Text(<<LongA(300), LongA(300) \o <<b_>>>>)) EXCEPT !.er = FALSE]>>
(* TLC evaluates a definition once only when it is not itself substituted *)
MacroGroups == MacroGroups0
=============================================================================
