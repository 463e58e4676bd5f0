-------------------------------- MODULE Calls --------------------------------
(* Which calls a front end with run-time types accepts.  A plan (r2c or not)    *)
(* transforms arrays whose lengths are those of its boxes; the element types of *)
(* the two sides are one precision, the side of the spectrum is complex, and a  *)
(* plan of real data takes real data on the other side; a workspace is complex  *)
(* of the same precision and long enough.  Every other call is refused without  *)
(* touching the result.                                                         *)
EXTENDS Integers
Scales == 0..2
Kinds == {"f4","c8","f8","c16","i4"}
Spectrum(t) == IF t \in {"f4","c8"} THEN "c8" ELSE "c16"
(* p: [r2c, nin, nout, ws] of the plan on this rank; c: the call *)
Side(c) == IF c.bk = 0 THEN c.tin ELSE c.tout
Other(c) == IF c.bk = 0 THEN c.tout ELSE c.tin
TypesOk(p,c) == /\ Side(c) \in {"f4","c8","f8","c16"} /\ Other(c) = Spectrum(Side(c))
                /\ p.r2c => Side(c) \in {"f4","f8"}
LengthsOk(p,c) == c.nin = (IF c.bk = 0 THEN p.nin ELSE p.nout) /\ c.nout = (IF c.bk = 0 THEN p.nout ELSE p.nin)
WorkOk(p,c) == c.buf = 1 => c.nws >= p.ws /\ c.tws = Spectrum(Side(c))
Accepts(p,c) == c.sc \in Scales /\ LengthsOk(p,c) /\ TypesOk(p,c) /\ WorkOk(p,c)
=============================================================================
