------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Calls made by several threads, as the library promises them: a call     *)
(* begins, runs for a while at the same time as others and ends with the   *)
(* answer its arguments have when nothing else runs.  There is no state of *)
(* the library between or across calls: the only variables are the calls   *)
(* under way and those which ended.                                        *)
(*   th[r]       the thread of call r                                      *)
(*   alone[r]    the answer of call r alone                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES under, ended

cvars == <<under, ended>>

CallsInit == under = {} /\ ended = {}

Begin(th, r) ==
  /\ r \in DOMAIN th \ (under \cup ended)
  /\ \A s \in under : th[s] # th[r]
  /\ under' = under \cup {r}
  /\ UNCHANGED ended

End(alone, r, answer) ==
  /\ r \in under
  /\ answer = alone[r]
  /\ under' = under \ {r}
  /\ ended' = ended \cup {r}
=============================================================================
