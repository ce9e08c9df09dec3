------------------------------ MODULE DecTest ------------------------------
(* Laws of the number evaluator (Dec.java), checked at set-up.                *)
EXTENDS Num

Ns == {"0", "1", "-1", "2.5", "-0.125", "1e-07", "1E+3", "123456.789", "0.1", "3.3333333333333335"}
Pos == {x \in Ns : DLt("0", x)}
Cl(a, b) == DClose(a, b, "1e-30", "1e-30")

ASSUME \A a, b \in Ns : DAdd(a, b) = DAdd(b, a) /\ DMul(a, b) = DMul(b, a)
ASSUME \A a, b, c \in Ns : Cl(DMul(a, DAdd(b, c)), DAdd(DMul(a, b), DMul(a, c)))
ASSUME \A a, b \in Ns : DSub(DAdd(a, b), b) = DNorm(a)
ASSUME \A a \in Ns : DAdd(a, DNeg(a)) = "0" /\ DAbs(a) = DAbs(DNeg(a))
ASSUME \A a, b \in Ns : ~DEq(b, "0") => Cl(DMul(DDiv(a, b), b), a)
ASSUME \A a \in Pos : Cl(DMul(DSqrt(a), DSqrt(a)), a) /\ Cl(DExp(DLn(a)), a)
ASSUME \A a, b \in Pos : DClose(DLn(DMul(a, b)), DAdd(DLn(a), DLn(b)), "1e-30", "1e-30")
ASSUME \A a, b \in {"0", "1", "-1", "2.5", "0.1"} : Cl(DExp(DAdd(a, b)), DMul(DExp(a), DExp(b)))
ASSUME DClose(DExp("1"), "2.71828182845904523536028747135266249", "1e-32", "0")
ASSUME DClose(DLn("2"), "0.693147180559945309417232121458176568", "1e-32", "0")
ASSUME DClose(DLn("10"), "2.30258509299404568401799145468436421", "1e-32", "0")
ASSUME DNorm("1.0") = "1" /\ DNorm("1e+02") = "100" /\ DNorm("-0.0") = "0" /\ DNorm("1e-07") = "1E-7"
ASSUME DFloor("-1.5") = "-2" /\ DRound("2.5") = "2" /\ DRound("3.5") = "4" /\ DToInt("7.0") = 7
ASSUME DLt("1", "1.0000001") /\ ~DLt("1.0", "1") /\ DLe("1.0", "1") /\ DEq("1e0", "1.000")
ASSUME \A x \in {"nan", "inf", "-inf"} : ~DFinite(x) /\ ~DClose(x, x, "1", "1") /\ ~DLe(x, "1")
                                      /\ DAdd(x, "1") = "nan" /\ ~DEq(x, x)
ASSUME DSqrt("-1") = "nan" /\ DLn("0") = "nan" /\ DDiv("1", "0") = "nan"
ASSUME DMax("1", "-3") = "1" /\ DMin("1", "-3") = "-3" /\ DFromInt(5) = "5"
S1 == <<"1", "2.5", "-0.125", "1e-07">>
S2 == <<"0.1", "3", "123456.789", "-7">>
ASSUME DSum(S1) = FoldLeft(DAdd, "0", S1)
ASSUME Cl(DDot(S1, S2), FoldLeft(DAdd, "0", VMul(S1, S2)))
M1 == <<<<"4", "1", "0.5">>, <<"1", "0", "-1">>, <<"0.5", "-1", "2">>>>
ASSUME MClose(MMul(M1, MInv(M1)), MEye(3), "0", "1e-30")
ASSUME MInv(<<<<"1", "2">>, <<"2", "4">>>>) = <<>>
ASSUME LinSpace("0", "1", 5) = <<"0", "0.25", "0.5", "0.75", "1">> /\ LinSpace("3", "9", 1) = <<"3">>
ASSUME RowSums(<<"1", "2", "3", "4", "5", "6">>, 2, 3) = <<"6", "15">>
ASSUME ColSums(<<"1", "2", "3", "4", "5", "6">>, 2, 3) = <<"5", "7", "9">>
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
