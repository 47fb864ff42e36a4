------------------------------ MODULE HandlesMC ------------------------------
EXTENDS Handles
NoScript == <<>>
\* a context, an independent, a number, a variable whose context is gone
Mixed == << E("knew", 2, 0, 0, "", 0), E("indep", 3, 2, 0, "", 0), E("kdestroy", 2, 0, 0, "", 0), E("knew", 1, 0, 0, "", 0),
            E("indep", 1, 1, 0, "", 0), E("value", 2, 0, 0, "", 2) >>
=============================================================================
