----------------------------- MODULE ColumnsMC -----------------------------
EXTENDS Columns
K(p, w, m) == [p |-> p, w |-> w, m |-> m]
Model == {K(p, w, 2) : p \in 1..3, w \in {<<0>>, <<1>>, <<4>>, <<5>>, <<2, 2>>, <<3, 2>>}}
Bad == {K(2, <<3>>, 1)}
Small == {K(p, w, 2) : p \in 1..4, w \in {<<0>>, <<1>>, <<2>>, <<3>>}}
         \cup {K(2, <<4>>, 3), K(3, <<4>>, 1), K(2, <<2, 2>>, 2), K(3, <<2, 1>>, 2), K(2, <<3, 1>>, 2), K(1, <<3, 3>>, 2)}
Deep == Small \cup {K(4, <<4>>, 3), K(2, <<5>>, 2), K(3, <<5>>, 2), K(3, <<2, 2>>, 2), K(4, <<2, 2>>, 2), K(2, <<3, 2>>, 2), K(2, <<6>>, 1)}
Deeper == Deep \cup {K(2, <<7>>, 2), K(3, <<6>>, 2), K(4, <<5>>, 2), K(3, <<3, 2>>, 2), K(4, <<3, 2>>, 2), K(2, <<2, 2, 2>>, 2)}
Wide == {K(p, w, m) : p \in {2, 3, 4, 5, 6, 8}, m \in {1, 4}, w \in {<<6>>, <<8>>, <<12>>, <<5, 5>>, <<7, 3>>, <<4, 4, 4>>}}
=============================================================================
