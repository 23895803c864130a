------------------------------- MODULE Offer_MC -------------------------------
(* Every request there is, one after the other. *)
EXTENDS ModelBase, Offer
MC_Inits == { <<[n |-> 0], 0>> }
MC_Calls(c, k) == { [op |-> "ask", a |-> q] : q \in Requests }
MC_Do(k, c) == [st |-> k, x |-> CHOOSE x \in Refusals(c.a[1], c.a[2], c.a[3], c.a[4]) : TRUE, r |-> NONE]
\* each offer can be had, and something of every name is offered
Consistent == \A e \in Entries : OnPython(e) # {} /\ OnCpp(e) \subseteq OnPython(e)
Decided == \A q \in Requests : Refusals(q[1], q[2], q[3], q[4]) # {} /\ ("" \in Refusals(q[1], q[2], q[3], q[4]) => Cardinality(Refusals(q[1], q[2], q[3], q[4])) = 1)
=============================================================================
