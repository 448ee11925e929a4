------------------------- MODULE CoffeInputHistory -------------------------
(* Random histories of supplied tables, and what is there afterwards.       *)
EXTENDS CoffeInput, Json, Randomization, SequencesExt
CONSTANTS Depth
VARIABLES hist
hvars == <<universe, spectrum, bias, hist>>
Growth(s) == SetToSeq({<<x[1], x[2], s.growth[x]>> : x \in DOMAIN s.growth})
State == [universe |-> universe', spectrum |-> [table |-> spectrum'.table, growth |-> Growth(spectrum')], bias |-> bias']
Did(e) == hist' = Append(hist, [did |-> e, state |-> State])
HInit == NInit /\ hist = <<>>
HNext ==
    /\ Len(hist) < Depth
    /\ \E w \in {RandomElement(1..20)}, t \in {RandomElement(Tables)}, z \in {RandomElement(Redshifts)}, s \in {RandomElement(Slots)},
          u \in {RandomElement(Universes)}, bs \in {RandomElement(UnusableSpectrum)}, bb \in {RandomElement(UnusableBias)} :
         CASE w <= 6 -> Supply(t, z) /\ Did([e |-> "spectrum", t |-> t, z |-> z])
           [] w <= 12 -> Bias(s, t) /\ Did([e |-> "bias", s |-> s, t |-> t])
           [] w <= 14 -> Universe(u) /\ Did([e |-> "universe", u |-> u])
           [] w <= 17 -> Refused /\ Did([e |-> "unusable spectrum", why |-> bs, t |-> t, z |-> z])
           [] OTHER -> Refused /\ Did([e |-> "unusable bias", s |-> s, why |-> bb, t |-> t])
HSpec == HInit /\ [][HNext]_hvars
Emit == Len(hist) < Depth \/ PrintT("HISTORY " \o ToJson(hist))
=============================================================================
