------------------------------ MODULE MCAccum ------------------------------
(* All histories of at most MaxOps accumulator operations over two (or       *)
(* three) registers; with Emit the histories are printed for replay.         *)
EXTENDS Accum, Json
CONSTANTS NReg, MaxOps, Emit
VARIABLE h
Vals == {<<0>>, <<1, 0, 1>>, <<-1, 5000, 2>>, <<1, 1, 0, 1>>}      \* 0, 1, -2.5, 10^4+0.0001
Ops == {[op |-> "new", r |-> r] : r \in 1..NReg}
       \cup {[op |-> "upd", r |-> r, x |-> x] : r \in 1..NReg, x \in Vals}
       \cup {[op |-> "many", r |-> r, xs |-> <<<<1, 0, 1>>, <<-1, 5000, 2>>>>, k |-> 3] : r \in 1..NReg}
       \cup {[op |-> "copy", r |-> p[1], to |-> p[2]] : p \in {q \in (1..NReg) \X (1..NReg) : q[1] # q[2]}}
       \cup {[op |-> "comb", r |-> p[1], o |-> p[2]] : p \in (1..NReg) \X (1..NReg)}
Do(o) == CASE o.op = "new"  -> New(o.r)
           [] o.op = "upd"  -> Update(o.r, o.x)
           [] o.op = "many" -> Repeat(o.r, o.xs, o.k)
           [] o.op = "copy" -> Copy(o.r, o.to)
           [] o.op = "comb" -> Combine(o.r, o.o)
MCInit == AccInit(1..NReg) /\ h = <<>>
MCNext == /\ Len(h) < MaxOps
          /\ \E o \in Ops :
               /\ Do(o)
               /\ h' = Append(h, o)
               /\ Emit /\ Len(h') = MaxOps => PrintT("GEN|" \o ToJson(h'))
MCSpec == MCInit /\ [][MCNext]_<<avars, h>>
Hist == IF Emit THEN <<h, avars>> ELSE <<Len(h), avars>>
=============================================================================
