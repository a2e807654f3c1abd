------------------------------- MODULE GenIO --------------------------------
(* Output of the transitions of a specification, for the generation of      *)
(* operation sequences.                                                     *)
EXTENDS CSV, Json, IOUtils, TLC
EmitStart(ops) == CSVWrite("%1$s", <<ToJson([start |-> ops])>>, IOEnv.GEN_OUT)
EmitStep(from, op, to) == CSVWrite("%1$s", <<ToJson([f |-> from, o |-> op, t |-> to])>>, IOEnv.GEN_OUT)
=============================================================================
