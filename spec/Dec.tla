-------------------------------- MODULE Dec --------------------------------
(* Decimal numbers as strings.  TLC's integers have 32 bits and no fractions,
   so numbers of the implementation are strings here (exactly as Python's repr
   prints a float).  The operators are evaluated by /verif/java/Dec.java with
   34 decimal digits; the definitions below only declare them.  The module
   DecTest checks their laws.  The results of all operations are in a normal
   form, so equal numbers are equal strings.                                  *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

DNorm(a) == CHOOSE x \in STRING : TRUE       \* normal form of a number
DFromInt(a) == CHOOSE x \in STRING : TRUE    \* integer -> number
DToInt(a) == CHOOSE x \in Int : TRUE         \* number -> integer
DFinite(a) == CHOOSE x \in BOOLEAN : TRUE    \* FALSE for "nan", "inf", ...
DAdd(a, b) == CHOOSE x \in STRING : TRUE
DSub(a, b) == CHOOSE x \in STRING : TRUE
DMul(a, b) == CHOOSE x \in STRING : TRUE
DDiv(a, b) == CHOOSE x \in STRING : TRUE     \* "nan" if b is zero
DNeg(a) == CHOOSE x \in STRING : TRUE
DAbs(a) == CHOOSE x \in STRING : TRUE
DSqrt(a) == CHOOSE x \in STRING : TRUE       \* "nan" if a is negative
DLn(a) == CHOOSE x \in STRING : TRUE         \* "nan" if a is not positive
DExp(a) == CHOOSE x \in STRING : TRUE
DFloor(a) == CHOOSE x \in STRING : TRUE
DRound(a) == CHOOSE x \in STRING : TRUE      \* to the nearest even integer
DMax(a, b) == CHOOSE x \in STRING : TRUE
DMin(a, b) == CHOOSE x \in STRING : TRUE
DLt(a, b) == CHOOSE x \in BOOLEAN : TRUE
DLe(a, b) == CHOOSE x \in BOOLEAN : TRUE
DEq(a, b) == CHOOSE x \in BOOLEAN : TRUE
\* |a - b| <= rel * max(|a|, |b|) + abs
DClose(a, b, rel, abs) == CHOOSE x \in BOOLEAN : TRUE
DSum(s) == CHOOSE x \in STRING : TRUE        \* sum of a sequence
DDot(s, t) == CHOOSE x \in STRING : TRUE     \* scalar product of two sequences
=============================================================================
