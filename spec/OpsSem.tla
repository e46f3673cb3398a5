------------------------------- MODULE OpsSem -------------------------------
(* The meaning of every specified operator: results by parameters, inputs    *)
(* and (for results that are no integers) the scale they are recorded in.    *)
EXTENDS OpsWindow
MaxRank == 7
Ranked(r) == IF r.k = "val" /\ (\E i \in 1 .. Len(r.y) : Len(r.y[i].s) > MaxRank) THEN Err ELSE r
With(r, tol, itol) == IF r.k = "val" THEN Ranked(r @@ [tol |-> tol, itol |-> itol]) ELSE r
Sem(op, p, x, sc) == IF op \in MathOps THEN With(Math(op, p, x, sc), Tol(op, x), 0)
                     ELSE IF op \in WindowOps THEN With(WindowSem(op, p, x, sc), WindowTol(op), WindowITol(op, p))
                     ELSE Ranked(Move(op, p, x))
=============================================================================
