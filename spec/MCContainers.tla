---------------------------- MODULE MCContainers ----------------------------
(* Every single-field defect of every container, with the decision the     *)
(* specification makes; the lot is replayed in the real containers.        *)
EXTENDS Containers, TLC, Json
VARIABLE g
Init == g = <<>>
Cases == UNION {UNION {{[cls |-> c, field |-> f[1], kind |-> f[2], tail |-> f[3], defect |-> d] : d \in Defects(c, f) \cup {"none"}} : f \in Fields[c]} : c \in Classes}
Next == g = <<>> /\ g' \in Cases
\* a container is well formed exactly when every field is
ASSUME \A c \in Classes : \E f \in Fields[c] : f[2] = "bool"
ASSUME \A c \in Classes : \A f, h \in Fields[c] : f[1] = h[1] => f = h
ASSUME \A n \in DOMAIN ViewOf : \E c \in Classes : \A i \in DOMAIN ViewOf[n] : \E f \in Fields[c] : f[1] = ViewOf[n][i]
Export == g = <<>> \/ PrintT("@@" \o ToJson([g |-> g, ok |-> Accepts(g.defect)]))
=============================================================================
