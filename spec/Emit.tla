-------------------------------- MODULE Emit --------------------------------
(* Behaviours of the exploring modules, written out as calls to replay into    *)
(* the code: one line per state, with the bits and the calls to make on them.  *)
EXTENDS Battery, Json, CSV, IOUtils

NoPar == << >>
Call(test, par) == [test |-> test, par |-> par]
EmitCalls(bits, calls) ==
    IF calls = << >> THEN TRUE
    ELSE CSVWrite("%1$s", <<ToJson([b |-> bits, c |-> calls])>>, IOEnv.OUT)
EmitLine(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Complement(bits) == [i \in 1..Len(bits) |-> 1 - bits[i]]
=============================================================================
