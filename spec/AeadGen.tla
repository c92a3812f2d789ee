------------------------------- MODULE AeadGen ------------------------------
(* Generator of layouts for the real AEAD crypters: lengths and cuts into up   *)
(* to three buffers, capacities from one less than needed (Caps - 1), and what is wrong   *)
(* with the inputs. One edge per call; walks are histories on one object.      *)
EXTENDS Aead, TLC, Json
CONSTANTS Lens, Caps
VARIABLES st, op
Init == st = "have" /\ op = <<"init">>
Lay(n) == {<<a, b - a, n - b>> : a \in 0..n, b \in 0..n}
Good(x) == x[1] >= 0 /\ x[2] >= 0 /\ x[3] >= 0
Enc == \E n \in Lens : \E x \in Lay(n) : \E c \in Caps :
         /\ Good(x) /\ n + TagLen + c >= 1
         /\ op' = <<"enc", x, n + TagLen + c - 1>>
Dec == \E n \in Lens : \E x \in Lay(n + TagLen) : \E c \in Caps, m \in {"none", "bad"} :
         /\ Good(x) /\ n + c >= 1
         /\ op' = <<"dec", x, n + c - 1, m>>
Next == (Enc \/ Dec) /\ st' = st
View == st
Edge == PrintT(ToJson([from |-> View, op |-> op', to |-> View']))
=============================================================================
