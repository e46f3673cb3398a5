-------------------------- MODULE TraceImageFilter --------------------------
(* Recorded histories of image filters.  Images are known by tokens; what a  *)
(* step makes of an image is learned from the step done alone.               *)
EXTENDS ImageFilter, TraceUtil
VARIABLES l, fl, got, bnd
vars == <<l, fl, got, bnd>>
E == Trace[l]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Init == l = 1 /\ fl = <<>> /\ got = <<>> /\ bnd = <<>>
\* what a filter makes of an image: 0 is a refusal, -1 not known
By(x, steps) == SE!FoldLeft(LAMBDA v, s : IF v <= 0 THEN v ELSE IF <<v, s>> \in DOMAIN got THEN got[<<v, s>>] ELSE -1, x, steps)
Says(v, err, y) == CASE v = 0 -> err = "ts" [] v > 0 -> err = "" /\ y = v [] OTHER -> FALSE
Say(w, ok) == IF ok THEN TRUE ELSE PrintT(<<"WHY", w>>) /\ FALSE
Obs == CASE E.ev \in {"add", "compile", "clone", "bind", "sclone"} -> E.err = ""
         [] E.ev = "one" -> /\ (E.err = "") = (E.y > 0) /\ E.err \in {"", "ts"}
                            /\ (<<E.x, E.s>> \in DOMAIN got => got[<<E.x, E.s>>] = E.y)
                            /\ (E.told => IF StepOk(E.s, E.in, E.sc, E.err, IF E.err = "" THEN E.out ELSE 0) THEN TRUE ELSE PrintT(<<"WHY", IF E.s.k = "letterbox" THEN 0 ELSE StepSem(E.s, Image(E.in), E.sc)>>) /\ FALSE)
         [] E.ev = "run" -> Say(By(E.x, fl[E.f]), Says(By(E.x, fl[E.f]), E.err, E.y))
         [] E.ev = "module" -> Say(By(E.x, fl[E.f]), Says(By(E.x, fl[E.f]), E.err, E.y))
         [] E.ev = "batch" -> E.each = E.cut
         [] E.ev = "srun" -> IF bnd = <<>> \/ bnd[1] = <<>> THEN E.err = "" /\ E.y = E.x
                             ELSE IF E.dims < 2 \/ E.dims > 4 THEN E.err = "ts"
                             ELSE Say(By(E.x4, bnd[1]), Says(By(E.x4, bnd[1]), E.err, E.y))
         [] E.ev = "end" -> E.still
         [] OTHER -> TRUE
Body == CASE E.ev = "new" -> fl' = Put(fl, E.f, <<>>) /\ UNCHANGED <<got, bnd>>
          [] E.ev = "add" -> fl' = [fl EXCEPT ![E.f] = Append(@, E.s)] /\ UNCHANGED <<got, bnd>>
          [] E.ev = "clear" -> fl' = [fl EXCEPT ![E.f] = <<>>] /\ UNCHANGED <<got, bnd>>
          [] E.ev = "clone" -> fl' = Put(fl, E.g, fl[E.f]) /\ UNCHANGED <<got, bnd>>
          [] E.ev = "drop" -> fl' = Without(fl, E.f) /\ UNCHANGED <<got, bnd>>
          [] E.ev = "one" -> got' = Put(got, <<E.x, E.s>>, E.y) /\ UNCHANGED <<fl, bnd>>
          [] E.ev = "session" -> bnd' = <<>> /\ UNCHANGED <<fl, got>>
          [] E.ev = "bind" -> bnd' = <<fl[E.f]>> /\ UNCHANGED <<fl, got>>
          [] OTHER -> UNCHANGED <<fl, got, bnd>>
TraceNext == \/ l <= Len(Trace) /\ E.ev = "reset" /\ l' = l + 1 /\ fl' = <<>> /\ got' = <<>> /\ bnd' = <<>>
             \/ l <= Len(Trace) /\ E.ev # "reset" /\ l' = l + 1 /\ Body /\ (IF Obs THEN TRUE ELSE FALSE)
TraceSpec == Init /\ [][TraceNext]_vars
=============================================================================
