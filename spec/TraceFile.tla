------------------------------ MODULE TraceFile ------------------------------
(* Where a recorded trace is. *)
EXTENDS Json, IOUtils
TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
=============================================================================
