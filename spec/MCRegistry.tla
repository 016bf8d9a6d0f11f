------------------------------ MODULE MCRegistry ------------------------------
(* The metric registry as a state machine: registering and running metrics.   *)
(* Every complete history is printed and replayed in the real module.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES reg, hist
Custom == {"A", "B"}
Builtin == {"log_divergence"}
Names == Custom \cup Builtin
Versions == {1, 2}
Requests == {<<"A">>, <<"B", "A">>, <<"log_divergence", "A">>, <<"log_divergence">>, <<>>}
Known == {n \in Names : reg[n] # 0}
Init == reg = [n \in Names |-> IF n \in Builtin THEN 9 ELSE 0] /\ hist = <<>>
Register(n, v) ==
  IF n \in Known
  THEN reg' = reg /\ hist' = Append(hist, [op |-> "register", n |-> n, v |-> v, out |-> "ValueError"])
  ELSE reg' = [reg EXCEPT ![n] = v] /\ hist' = Append(hist, [op |-> "register", n |-> n, v |-> v, out |-> "ok"])
Run(q) ==
  /\ reg' = reg
  /\ hist' = Append(hist, IF \A i \in DOMAIN q : q[i] \in Known
       THEN [op |-> "run", q |-> q, out |-> "ok", res |-> [n \in {q[i] : i \in DOMAIN q} |-> reg[n]]]
       ELSE [op |-> "run", q |-> q, out |-> "ValueError"])
Next == Len(hist) < Depth /\ (\/ \E n \in Names, v \in Versions : Register(n, v)
                              \/ \E q \in Requests : Run(q))
\* a name never changes its meaning and nothing is ever forgotten
Stable == [][\A n \in Names : reg[n] # 0 => reg'[n] = reg[n]]_<<reg, hist>>
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([h |-> hist, names |-> Known]))
Spec == Init /\ [][Next]_<<reg, hist>>
=============================================================================
