------------------------------- MODULE NUnit --------------------------------
(***************************************************************************)
(* Units: predicates on one item (a character or a byte).  The named       *)
(* classes are defined exactly on ASCII; for other code points they are    *)
(* defined by the sets below.                                              *)
(***************************************************************************)
EXTENDS NInput

Between_(c, a, b) == a <= c /\ c <= b
IsLower(c) == Between_(c, 97, 122)
IsUpper(c) == Between_(c, 65, 90)
IsDig(c)   == Between_(c, 48, 57)
IsAlpha(c) == IsLower(c) \/ IsUpper(c)

(* Unicode properties beyond ASCII.  White space and control characters    *)
(* are defined exactly; the others exactly on Latin-1 (below 256) and by   *)
(* a table for the other code points used by the models.  Many of these    *)
(* look like an ASCII character when cut to a byte (Latin extended), or    *)
(* when their case is folded (long s), or are digits or letters only.      *)
UWhite   == {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
UControl == 128..159
ULower   == {170, 181, 186} \cup (223..246) \cup (248..255)
              \cup {305, 351, 353, 383, 688, 837, 969, 1072, 8560}
UUpper   == (192..214) \cup (216..222)
              \cup {256, 266, 288, 304, 313, 321, 880, 937, 1040, 8544, 8551, 9398, 65313}
UCaseless == {453, 1488, 12295, 20013}        \* letters without case, or in title case
UNumber  == {178, 179, 185, 188, 189, 190}
              \cup {1632, 1635, 1785, 2406, 8304, 8544, 8551, 8560, 12295, 65297, 120782}
UOther   == {161, 182, 215, 247, 769, 6158, 8203, 65279, 128512}
NA(c, cl) == /\ c > 127
             /\ CASE cl = "alphabetic"   -> c \in ULower \cup UUpper \cup UCaseless
                  [] cl = "alphanumeric" -> c \in ULower \cup UUpper \cup UCaseless \cup UNumber
                  [] cl = "lowercase"    -> c \in ULower
                  [] cl = "uppercase"    -> c \in UUpper
                  [] cl = "numeric"      -> c \in UNumber
                  [] cl = "whitespace"   -> c \in UWhite
                  [] cl = "control"      -> c \in UControl

Cls(cl, c) ==
  CASE cl = "alphabetic"         -> IsAlpha(c) \/ NA(c, cl)
    [] cl = "alphanumeric"       -> IsAlpha(c) \/ IsDig(c) \/ NA(c, cl)
    [] cl = "ascii"              -> c < 128
    [] cl = "ascii_alphabetic"   -> IsAlpha(c)
    [] cl = "ascii_alphanumeric" -> IsAlpha(c) \/ IsDig(c)
    [] cl = "ascii_control"      -> c < 32 \/ c = 127
    [] cl = "ascii_digit"        -> IsDig(c)
    [] cl = "ascii_graphic"      -> Between_(c, 33, 126)
    [] cl = "ascii_hexdigit"     -> IsDig(c) \/ Between_(c, 97, 102) \/ Between_(c, 65, 70)
    [] cl = "ascii_lowercase"    -> IsLower(c)
    [] cl = "ascii_punctuation"  -> Between_(c, 33, 126) /\ ~IsAlpha(c) /\ ~IsDig(c)
    [] cl = "ascii_uppercase"    -> IsUpper(c)
    [] cl = "ascii_whitespace"   -> c \in {9, 10, 12, 13, 32}
    [] cl = "control"            -> c < 32 \/ c = 127 \/ NA(c, cl)
    [] cl = "lowercase"          -> IsLower(c) \/ NA(c, cl)
    [] cl = "numeric"            -> IsDig(c) \/ NA(c, cl)
    [] cl = "uppercase"          -> IsUpper(c) \/ NA(c, cl)
    [] cl = "whitespace"         -> c \in {9, 10, 11, 12, 13, 32} \/ NA(c, cl)
    [] cl = "wild"               -> c # 10
    [] cl = "word"               -> IsAlpha(c) \/ IsDig(c) \/ c = 95

(* digits in radix r (ASCII only, letters in both cases) *)
DigitVal(c) == IF IsDig(c) THEN c - 48
               ELSE IF IsLower(c) THEN c - 87
               ELSE IF IsUpper(c) THEN c - 55 ELSE 99

InRange(u, c) == /\ (u.lk = "u" \/ (u.lk = "i" /\ u.lo <= c) \/ (u.lk = "x" /\ u.lo < c))
                 /\ (u.hk = "u" \/ (u.hk = "i" /\ c <= u.hi) \/ (u.hk = "x" /\ c < u.hi))

RECURSIVE UM(_, _)
UM(u, c) ==
  CASE u.u = "chr"    -> c = u.c
    [] u.u = "eq"     -> c = u.c
    [] u.u = "set"    -> \E i \in 1..Len(u.cs) : u.cs[i] = c
    [] u.u = "rng"    -> InRange(u, c)
    [] u.u = "cls"    -> Cls(u.cl, c)
    [] u.u = "dig"    -> DigitVal(c) < u.r
    [] u.u = "fn"     -> c % u.m = u.r          \* an arbitrary predicate (a closure)
    [] u.u = "and"    -> UM(u.l, c) /\ UM(u.r, c)
    [] u.u = "or"     -> UM(u.l, c) \/ UM(u.r, c)
    [] u.u = "not"    -> ~UM(u.x, c)
    [] u.u = "always" -> TRUE
    [] u.u = "never"  -> FALSE
    [] u.u = "wrap"   -> UM(u.x, c)

(* constructors *)
Chr(c)    == [u |-> "chr", c |-> c]
Eq(c)     == [u |-> "eq", c |-> c]
Set_(cs)  == [u |-> "set", cs |-> cs, w |-> "array"]
SetW(cs, w) == [u |-> "set", cs |-> cs, w |-> w]
Rng(lk, lo, hk, hi, w) == [u |-> "rng", lk |-> lk, lo |-> lo, hk |-> hk, hi |-> hi, w |-> w]
RngI(lo, hi) == Rng("i", lo, "i", hi, "std")
ClsU(cl)  == [u |-> "cls", cl |-> cl]
DigU(r)   == [u |-> "dig", r |-> r]
FnU(m, r) == [u |-> "fn", m |-> m, r |-> r]
AndU(l, r) == [u |-> "and", l |-> l, r |-> r]
OrU(l, r)  == [u |-> "or", l |-> l, r |-> r]
NotU(x)   == [u |-> "not", x |-> x]
AlwaysU   == [u |-> "always"]
NeverU    == [u |-> "never"]
WrapU(w, x) == [u |-> "wrap", w |-> w, x |-> x]
=============================================================================
