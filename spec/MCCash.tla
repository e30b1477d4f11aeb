------------------------------- MODULE MCCash -------------------------------
(* All histories of a cash flow and of a collection up to a depth; printed  *)
(* as operation sequences for the real code.                               *)
EXTENDS Cashflow, TLC, Json, FiniteSets
CONSTANTS Depth
VARIABLES vc, vk, vh, vn
vars == <<vc, vk, vh, vn>>
Init == vc = <<>> /\ vk = <<>> /\ vh = <<>> /\ vn = 0
Add == \E x \in 1..3 :
          /\ vc' = AddPayment(vc, [d |-> x, id |-> vn])
          /\ vh' = Append(vh, [op |-> "add", x |-> x, y |-> vn])
          /\ vn' = vn + 1 /\ UNCHANGED vk
Cut == \E i, j \in 0..2 : /\ Len(vc) > 0 /\ i <= j /\ j <= Len(vc)
          /\ vc' = SubSeq(vc, i + 1, j)
          /\ vh' = Append(vh, [op |-> "cut", x |-> i, y |-> j])
          /\ UNCHANGED <<vk, vn>>
PutKey == \E k \in 0..2 :
          /\ vk' = Put(vk, k, vn)
          /\ vh' = Append(vh, [op |-> "put", x |-> k, y |-> vn])
          /\ vn' = vn + 1 /\ UNCHANGED vc
Next == Len(vh) < Depth /\ (Add \/ Cut \/ PutKey)
Spec == Init /\ [][Next]_vars
Sorted == InOrder(vc)
\* payments of one date in the order they came
Stable == \A i, j \in 1..Len(vc) : i < j /\ vc[i].d = vc[j].d => vc[i].id < vc[j].id
OneEach == \A i, j \in 1..Len(vk) : vk[i].k = vk[j].k => i = j
KeysStay == [][\A i \in 1..Len(vk) : vk'[i].k = vk[i].k]_vars
Emit == Len(vh) = Depth => PrintT("VBEH " \o ToJson(vh))
=============================================================================
