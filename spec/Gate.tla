-------------------------------- MODULE Gate --------------------------------
(* What a statistical test does with an input, by what can be said of the      *)
(* input: how many distinct values it has, whether any is missing, its length. *)
EXTENDS Battery

GateOutcome(test, distinct, missing, n, constantHead) ==
    CASE missing \/ distinct # 2 -> "nonbinary"
      [] n < MinN(test) -> "minimum"
      [] test = "longest_runs" /\ n < 128 -> "notimpl"
      [] test = "spectral" /\ n % 2 = 1 /\ constantHead -> "nonbinary"
      [] OTHER -> "ok"
=============================================================================
