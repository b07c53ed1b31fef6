------------------------------ MODULE NumReal ------------------------------
(* Real arithmetic for TLC.  A number is a decimal string such as "-0.6931"  *)
(* (or "inf", "-inf", "nan"); plain TLC integers are accepted as arguments   *)
(* too.  Every operator below is replaced, when TLC runs, by the Java class  *)
(* NumReal (java/NumReal.java); the bodies here only fix the arity.          *)
EXTENDS Naturals, Sequences

NInt(i)        == CHOOSE x : TRUE      \* integer -> number
NAdd(a, b)     == CHOOSE x : TRUE
NSub(a, b)     == CHOOSE x : TRUE
NMul(a, b)     == CHOOSE x : TRUE
NDiv(a, b)     == CHOOSE x : TRUE
NLn(a)         == CHOOSE x : TRUE
NExp(a)        == CHOOSE x : TRUE
NSqrt(a)       == CHOOSE x : TRUE
NAbs(a)        == CHOOSE x : TRUE
NLt(a, b)      == CHOOSE x : TRUE
NLe(a, b)      == CHOOSE x : TRUE
NEq(a, b)      == CHOOSE x : TRUE      \* equal as doubles
NIsNaN(a)      == CHOOSE x : TRUE
NClose(a, b, tol) == CHOOSE x : TRUE   \* |a-b| <= tol * max(1,|a|,|b|)
NSumSeq(s)     == CHOOSE x : TRUE      \* sum of a sequence of numbers
NLogSumExp(s)  == CHOOSE x : TRUE
NFloor(a)      == CHOOSE x : TRUE      \* number -> TLC integer
NLGamma(a)     == CHOOSE x : TRUE      \* log |Gamma(a)|
Chars(s)       == CHOOSE x : TRUE      \* string -> sequence of 1-char strings
Code(c)        == CHOOSE x : TRUE      \* 1-char string -> character code
FromCode(n)    == CHOOSE x : TRUE      \* character code -> 1-char string
Join(seq, sep) == CHOOSE x : TRUE      \* sequence of strings -> string
IntStr(i)      == CHOOSE x : TRUE      \* integer -> decimal string
Split(s, sep)  == CHOOSE x : TRUE      \* string -> sequence of the pieces between separators
SetSeq(S)      == CHOOSE q : TRUE      \* the elements of a finite set, as a sequence
PairsFcn(q)    == CHOOSE f : TRUE      \* sequence of <<key, value>> (distinct keys) -> function
Tally(q)       == CHOOSE x : TRUE      \* sequence of <<key, weight>> -> total weight of each distinct key
Flatten(q)      == CHOOSE x : TRUE      \* sequence of sequences -> their concatenation
NRead(s)       == CHOOSE x : TRUE      \* the number at the front of a text (0 if none)
NReadInt(s)    == CHOOSE x : TRUE      \* the integer at the front of a text (0 if none)
IsNum(s)       == CHOOSE x : TRUE      \* is the text a decimal number?
=============================================================================
