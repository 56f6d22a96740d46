------------------------------- MODULE Trace -------------------------------
(* Conformance: a recorded run of the implementation is a behaviour of the   *)
(* specification.  Each line of the trace is one call with its arguments and *)
(* observed result.  `reg` is the specification's own state (the image or    *)
(* structure the session's in-place calls act on); Post is the specification *)
(* action for the call and Accept compares the observation with it.  The     *)
(* trace is cut into chunks at session boundaries, explored in parallel.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Accept(_, _, _),  \* Accept(state, event, state'): the observation is allowed
          Post(_, _),       \* the specification's next state
          Reg0              \* initial specification state

VARIABLES l, hi, reg

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Chunks == JsonDeserialize(IOEnv.CHUNKS)

TraceInit == /\ \E i \in 1..Len(Chunks) : l = Chunks[i][1] /\ hi = Chunks[i][2]
             /\ reg = Reg0

TraceNext ==
  /\ l <= hi
  /\ LET e == TraceLog[l]
         s == Post(reg, e)
     IN  /\ IF Accept(reg, e, s) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
         /\ reg' = s
  /\ l' = l + 1
  /\ hi' = hi

TraceSpec == TraceInit /\ [][TraceNext]_<<l, hi, reg>>
=============================================================================
