-------------------------- MODULE CoffeTermsExport --------------------------
EXTENDS CoffeTerms, Json, IOUtils, SequencesExt
Monomials(p) == SetToSeq({<<m, p[m]>> : m \in DOMAIN p})
Out == [ order |-> Order,
         integrated |-> Integrated,
         amplitude |-> [e \in Local |-> Amplitude(e)],
         kernel |-> [e \in Integrated |-> Kernel(e)],
         limber |-> [density |-> LimberDensity, densityacross |-> LimberDensityAcross,
                     lensing |-> LimberLensing, lensingacross |-> LimberLensingAcross],
         terms |-> [i \in 1..Len(Order) |-> [j \in 1..Len(Order) |->
                      LET a == Order[i]  b == Order[j] IN
                      [q |-> Power(a, b), p |-> Monomials(Term(a, b)), divergent |-> Divergent(a, b)]]],
         plane |-> [a \in {"density", "rsd", "d1"} |-> [b \in {"density", "rsd", "d1"} |-> Monomials(Plane(a, b))]] ]
ASSUME JsonSerialize(IOEnv.OUT, Out)
=============================================================================
