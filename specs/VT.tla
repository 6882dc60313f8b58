---------------------------------- MODULE VT ----------------------------------
(* Access to the recorded executions: one scenario per line of the ndjson file  *)
(* named by the environment variable VTRACE.                                    *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
Scenarios == ndJsonDeserialize(IOEnv.VTRACE)
===============================================================================
