------------------------------ MODULE TraceLib ------------------------------
(* Shared by all trace specifications.  A trace file holds many executions,
   each starting with a "reset" event.  A trace specification consumes every
   line; a line that is not a behaviour of the model is reported with the name
   of the clause it breaks and the rest of that execution is skipped.        *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

Report(l, clause, x) == PrintT("BAD " \o ToString(l) \o " " \o clause)

TraceConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
