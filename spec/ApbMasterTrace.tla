---------------------------- MODULE ApbMasterTrace -----------------------------
(* Validates recorded executions of the real code against the contract.     *)
EXTENDS ApbMaster, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, s
Init == tr \in 1..Len(Traces) /\ l = 1 /\ s = AInit0(Traces[tr].cfg)
Next ==
  /\ l <= Len(Traces[tr].ev)
  /\ LET x == AStep(Traces[tr].cfg, s, Traces[tr].ev[l])
     IN /\ s' = x.s
        /\ \A b \in x.bad : PrintT(<<"BAD", tr, l, b>>)
  /\ l' = l + 1
  /\ tr' = tr
  /\ (l = Len(Traces[tr].ev) => PrintT(<<"DONE", tr, l>>))
Spec == Init /\ [][Next]_<<tr, l, s>>
=============================================================================
