----------------------------- MODULE MCDeclared -----------------------------
(* Every configuration of Declared with the decision the specification makes. *)
EXTENDS Declared, Json
VARIABLE g
None == [fam |-> "none"]
Init == g = None
Next == g = None /\ g' \in Configs
\* sanity of the model: each family has both accepted and rejected members
Both(f) == (\E x \in Configs : x.fam = f /\ Accepts(x)) /\ (\E x \in Configs : x.fam = f /\ ~Accepts(x))
ASSUME \A f \in {"env", "top", "planning", "reward", "grid", "paths"} : Both(f)
ASSUME Cells(<<2, 3, 4>>) = 60
\* more data never hurts: adding ego paths keeps an accepted configuration accepted
Monotone == g.fam = "top" => (Accepts(g) => Accepts([g EXCEPT !.paths = 1]))
Export == g = None \/ PrintT("@@" \o ToJson([g |-> g, ok |-> Accepts(g)]))
=============================================================================
