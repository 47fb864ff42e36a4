---- MODULE ColumnsNestedMC_TTrace_1795135605 ----
EXTENDS ColumnsNestedMC, Sequences, TLCExt, Toolbox, Naturals, TLC

_expression ==
    LET ColumnsNestedMC_TEExpression == INSTANCE ColumnsNestedMC_TEExpression
    IN ColumnsNestedMC_TEExpression!expression
----

_trace ==
    LET ColumnsNestedMC_TETrace == INSTANCE ColumnsNestedMC_TETrace
    IN ColumnsNestedMC_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        todo = (<<{}>>)
        /\
        hist = (<<>>)
        /\
        buf = (<<<<3, 0, 0, 0, 0, 0>>>>)
        /\
        stack = (<<<<>>>>)
        /\
        left = ([yields |-> 0, calls |-> 0])
        /\
        cfg = ([p |-> 1, w |-> <<3>>, m |-> 2, yields |-> 1, calls |-> 0, inner |-> 2])
        /\
        w = (<<3>>)
        /\
        out = (<<<<<<1, <<1, 32>>>>, <<3, <<3, 34>>>>, <<2, <<3, 34>>>>>>>>)
    )
----

_init ==
    /\ out = _TETrace[1].out
    /\ w = _TETrace[1].w
    /\ hist = _TETrace[1].hist
    /\ left = _TETrace[1].left
    /\ buf = _TETrace[1].buf
    /\ todo = _TETrace[1].todo
    /\ cfg = _TETrace[1].cfg
    /\ stack = _TETrace[1].stack
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ out  = _TETrace[i].out
        /\ out' = _TETrace[j].out
        /\ w  = _TETrace[i].w
        /\ w' = _TETrace[j].w
        /\ hist  = _TETrace[i].hist
        /\ hist' = _TETrace[j].hist
        /\ left  = _TETrace[i].left
        /\ left' = _TETrace[j].left
        /\ buf  = _TETrace[i].buf
        /\ buf' = _TETrace[j].buf
        /\ todo  = _TETrace[i].todo
        /\ todo' = _TETrace[j].todo
        /\ cfg  = _TETrace[i].cfg
        /\ cfg' = _TETrace[j].cfg
        /\ stack  = _TETrace[i].stack
        /\ stack' = _TETrace[j].stack

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("ColumnsNestedMC_TTrace_1795135605.json", _TETrace)

=============================================================================

 Note that you can extract this module `ColumnsNestedMC_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `ColumnsNestedMC_TEExpression.tla` file takes precedence 
  over the module `ColumnsNestedMC_TEExpression` below).

---- MODULE ColumnsNestedMC_TEExpression ----
EXTENDS ColumnsNestedMC, Sequences, TLCExt, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `ColumnsNestedMC` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        out |-> out
        ,w |-> w
        ,hist |-> hist
        ,left |-> left
        ,buf |-> buf
        ,todo |-> todo
        ,cfg |-> cfg
        ,stack |-> stack
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_outUnchanged |-> out = out'
        
        \* Format the `out` variable as Json value.
        \* ,_outJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(out)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_outModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].out # _TETrace[s-1].out
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE ColumnsNestedMC_TETrace ----
\*EXTENDS ColumnsNestedMC, IOUtils, TLC
\*
\*trace == IODeserialize("ColumnsNestedMC_TTrace_1795135605.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE ColumnsNestedMC_TETrace ----
EXTENDS ColumnsNestedMC, TLC

trace == 
    <<
    ([todo |-> <<1..3>>,hist |-> <<>>,buf |-> <<<<0, 0, 0, 0, 0, 0>>>>,stack |-> <<<<>>>>,left |-> [yields |-> 1, calls |-> 0],cfg |-> [p |-> 1, w |-> <<3>>, m |-> 2, yields |-> 1, calls |-> 0, inner |-> 2],w |-> <<3>>,out |-> <<<<>>>>]),
    ([todo |-> <<{2, 3}>>,hist |-> <<>>,buf |-> <<<<1, 0, 0, 0, 0, 0>>>>,stack |-> <<<<[c |-> 1, k |-> "eval", col |-> 1, gate |-> 1]>>>>,left |-> [yields |-> 1, calls |-> 0],cfg |-> [p |-> 1, w |-> <<3>>, m |-> 2, yields |-> 1, calls |-> 0, inner |-> 2],w |-> <<3>>,out |-> <<<<>>>>]),
    ([todo |-> <<{2, 3}>>,hist |-> <<>>,buf |-> <<<<1, 0, 0, 0, 0, 0>>>>,stack |-> <<<<[c |-> 1, k |-> "eval", col |-> 1, gate |-> 2]>>>>,left |-> [yields |-> 1, calls |-> 0],cfg |-> [p |-> 1, w |-> <<3>>, m |-> 2, yields |-> 1, calls |-> 0, inner |-> 2],w |-> <<3>>,out |-> <<<<>>>>]),
    ([todo |-> <<{2, 3}>>,hist |-> <<>>,buf |-> <<<<1, 0, 0, 0, 0, 0>>>>,stack |-> <<<<>>>>,left |-> [yields |-> 1, calls |-> 0],cfg |-> [p |-> 1, w |-> <<3>>, m |-> 2, yields |-> 1, calls |-> 0, inner |-> 2],w |-> <<3>>,out |-> <<<<<<1, <<1, 32>>>>>>>>]),
    ([todo |-> <<{3}>>,hist |-> <<>>,buf |-> <<<<2, 0, 0, 0, 0, 0>>>>,stack |-> <<<<[c |-> 1, k |-> "eval", col |-> 2, gate |-> 1]>>>>,left |-> [yields |-> 1, calls |-> 0],cfg |-> [p |-> 1, w |-> <<3>>, m |-> 2, yields |-> 1, calls |-> 0, inner |-> 2],w |-> <<3>>,out |-> <<<<<<1, <<1, 32>>>>>>>>]),
    ([todo |-> <<{3}>>,hist |-> <<>>,buf |-> <<<<2, 0, 0, 0, 0, 0>>>>,stack |-> <<<<[c |-> 1, k |-> "eval", col |-> 2, gate |-> 2]>>>>,left |-> [yields |-> 1, calls |-> 0],cfg |-> [p |-> 1, w |-> <<3>>, m |-> 2, yields |-> 1, calls |-> 0, inner |-> 2],w |-> <<3>>,out |-> <<<<<<1, <<1, 32>>>>>>>>]),
    ([todo |-> <<{3}>>,hist |-> <<>>,buf |-> <<<<2, 0, 0, 0, 0, 0>>>>,stack |-> <<<<[c |-> 1, k |-> "eval", col |-> 2, gate |-> 12], [c |-> 0, k |-> "yield", col |-> 0, gate |-> 0]>>>>,left |-> [yields |-> 0, calls |-> 0],cfg |-> [p |-> 1, w |-> <<3>>, m |-> 2, yields |-> 1, calls |-> 0, inner |-> 2],w |-> <<3>>,out |-> <<<<<<1, <<1, 32>>>>>>>>]),
    ([todo |-> <<{}>>,hist |-> <<>>,buf |-> <<<<3, 0, 0, 0, 0, 0>>>>,stack |-> <<<<[c |-> 1, k |-> "eval", col |-> 2, gate |-> 12], [c |-> 1, k |-> "eval", col |-> 3, gate |-> 1]>>>>,left |-> [yields |-> 0, calls |-> 0],cfg |-> [p |-> 1, w |-> <<3>>, m |-> 2, yields |-> 1, calls |-> 0, inner |-> 2],w |-> <<3>>,out |-> <<<<<<1, <<1, 32>>>>>>>>]),
    ([todo |-> <<{}>>,hist |-> <<>>,buf |-> <<<<3, 0, 0, 0, 0, 0>>>>,stack |-> <<<<[c |-> 1, k |-> "eval", col |-> 2, gate |-> 12], [c |-> 1, k |-> "eval", col |-> 3, gate |-> 2]>>>>,left |-> [yields |-> 0, calls |-> 0],cfg |-> [p |-> 1, w |-> <<3>>, m |-> 2, yields |-> 1, calls |-> 0, inner |-> 2],w |-> <<3>>,out |-> <<<<<<1, <<1, 32>>>>>>>>]),
    ([todo |-> <<{}>>,hist |-> <<>>,buf |-> <<<<3, 0, 0, 0, 0, 0>>>>,stack |-> <<<<[c |-> 1, k |-> "eval", col |-> 2, gate |-> 12]>>>>,left |-> [yields |-> 0, calls |-> 0],cfg |-> [p |-> 1, w |-> <<3>>, m |-> 2, yields |-> 1, calls |-> 0, inner |-> 2],w |-> <<3>>,out |-> <<<<<<1, <<1, 32>>>>, <<3, <<3, 34>>>>>>>>]),
    ([todo |-> <<{}>>,hist |-> <<>>,buf |-> <<<<3, 0, 0, 0, 0, 0>>>>,stack |-> <<<<>>>>,left |-> [yields |-> 0, calls |-> 0],cfg |-> [p |-> 1, w |-> <<3>>, m |-> 2, yields |-> 1, calls |-> 0, inner |-> 2],w |-> <<3>>,out |-> <<<<<<1, <<1, 32>>>>, <<3, <<3, 34>>>>, <<2, <<3, 34>>>>>>>>])
    >>
----


=============================================================================

---- CONFIG ColumnsNestedMC_TTrace_1795135605 ----
CONSTANTS
    Configs <- Bad
    Emit = FALSE
    Buffer = "worker"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 00:46:48 UTC 2026