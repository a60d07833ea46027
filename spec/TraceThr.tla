------------------------------ MODULE TraceThr ------------------------------
(***************************************************************************)
(* Calls made by several threads, recorded from the library.  Records: st, *)
(* th (thread of each call), alone (answers of the calls alone), ans (the  *)
(* answers when together), ev (what happened, in order: [thread, call, 0]  *)
(* when the call began and [thread, call, 1] when it ended).  One state    *)
(* for each event; the behaviour must be one of Calls.  st is not "ok"     *)
(* when a call accessed without order what another one was writing.        *)
(***************************************************************************)
EXTENDS Calls, TLC, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.DATA)

VARIABLES i, k, err

R == Data[i]

Init == /\ i \in 1..Len(Data)
        /\ k = 0
        /\ err = IF Data[i].st # "ok" THEN Data[i].st ELSE ""
        /\ CallsInit

Ev == R.ev[k + 1]

Allowed == \/ Ev[3] = 0 /\ Begin(R.th, Ev[2])
           \/ Ev[3] = 1 /\ End(R.alone, Ev[2], R.ans[Ev[2]])

Step == /\ err = "" /\ k < Len(R.ev)
        /\ k' = k + 1 /\ i' = i
        /\ IF ENABLED Allowed THEN Allowed /\ err' = ""
           ELSE err' = "answer" /\ UNCHANGED cvars

TSpec == Init /\ [][Step]_<<i, k, err, cvars>>

Conforms == err = ""

(* Nothing is missing *)
AllEnded == err = "" /\ k = Len(R.ev) => under = {} /\ ended = DOMAIN R.th
=============================================================================
