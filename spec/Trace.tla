------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Behaviours recorded from the library.  Each record holds a request (a   *)
(* mesh m and settings c, see Mesh and CoMMA) and what the library         *)
(* answered.  One state for each record; the properties are invariants.    *)
(***************************************************************************)
EXTENDS CoMMA, Json, IOUtils

Data   == ndJsonDeserialize(IOEnv.DATA)
Stride == 64

VARIABLE i

R == Data[i]

RecInit == /\ i \in 1..Min2(Stride, Len(Data))
           /\ m = 0 /\ c = 0 /\ phase = "" /\ lines = <<>> /\ pairs = <<>>
           /\ todo = <<>> /\ ccs = <<>> /\ na = 0 /\ free = {} /\ pool = 0
           /\ out = <<>>
RecNext == /\ i + Stride <= Len(Data)
           /\ i' = i + Stride
           /\ UNCHANGED vars
RecSpec == RecInit /\ [][RecNext]_<<vars, i>>

(*--------------------------- results of a call ---------------------------*)
Ok(r) == r.st = "ok"

Ids(f2c) == {f2c[x] : x \in DOMAIN f2c}

(* Coarse lines are structurally fine and anisotropic identifiers come first *)
GoodLines(r) ==
  /\ ValidIndexed(r.lidx, r.lines)
  /\ {r.lines[k] : k \in DOMAIN r.lines} = 0..(Len(r.lines) - 1)
  /\ Len(r.lines) <= NbCC(r.f2c)

(* Number of anisotropic coarse cells, according to the lines handed back *)
NbAniso(cc, r) == IF AnisoOn(cc) THEN Len(r.lines) ELSE 0
=============================================================================
