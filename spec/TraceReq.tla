------------------------------ MODULE TraceReq ------------------------------
(***************************************************************************)
(* Requests and their answers.  Records:                                   *)
(*   a, r = [st, f2ckept, f2c, lidx, lines], same: answers which must be   *)
(*       equal to r                                       validity         *)
(*   m, on (anisotropy effective), rs : sequence of answers to the same    *)
(*       request, each with kept, lineskept               repeatability    *)
(*   m, r, ts : sequence of [m, p, r]                     equivalence      *)
(***************************************************************************)
EXTENDS Requests, Json, IOUtils

Data   == ndJsonDeserialize(IOEnv.DATA)
Stride == 64

VARIABLE i
R == Data[i]

RecInit == i \in 1..Min2(Stride, Len(Data))
RecNext == i + Stride <= Len(Data) /\ i' = i + Stride
RecSpec == RecInit /\ [][RecNext]_i

C11 ==
  IF Accepted(R.a)
  THEN /\ R.r.st = "ok"
       /\ \A k \in DOMAIN R.same : /\ R.same[k].st = "ok"
                                   /\ R.same[k].f2c = R.r.f2c
  ELSE R.r.st = "inv" /\ R.r.f2ckept

C15 ==
  \A k \in DOMAIN R.rs :
    LET r == R.rs[k]
    IN  /\ r.st = R.rs[1].st
        /\ r.kept
        /\ r.st = "ok" => /\ r.f2c = R.rs[1].f2c
                          /\ r.lidx = R.rs[1].lidx
                          /\ r.lines = R.rs[1].lines
                          /\ ~R.on => r.lineskept

C20 ==
  \A k \in DOMAIN R.ts :
    LET t == R.ts[k]
    IN  /\ Assert(Equivalent(R.m, t.m, t.p), "not equivalent")
        /\ t.r.st = R.r.st
        /\ R.r.st = "ok" => /\ Len(t.r.f2c) = Len(R.r.f2c)
                            /\ \A x \in DOMAIN R.r.f2c : t.r.f2c[t.p[x]] = R.r.f2c[x]
=============================================================================
