-------------------------- MODULE ColumnsNestedMC --------------------------
EXTENDS ColumnsNested
K(p, ww, y, c) == [p |-> p, w |-> ww, m |-> 2, yields |-> y, calls |-> c, inner |-> 2]
Model == {K(1, ww, 2, 1) : ww \in {<<1>>, <<3>>, <<4>>, <<2, 2>>}} \cup {K(2, ww, 1, 1) : ww \in {<<2>>, <<2, 1>>}} \cup {K(2, <<3>>, 2, 0)}
Bad == {K(1, <<3>>, 1, 0)}
Deep == {K(1, ww, 3, 1) : ww \in {<<1>>, <<2>>, <<3>>}} \cup {K(1, ww, 8, 0) : ww \in {<<3>>, <<4>>, <<5>>, <<2, 2>>}}
Deeper == {K(1, ww, 3, 2) : ww \in {<<1>>, <<2>>, <<3>>, <<4>>}} \cup {K(1, ww, 12, 0) : ww \in {<<4>>, <<5>>, <<6>>, <<2, 2>>, <<3, 2>>}}
============================================================================
