------------------------------ MODULE MC_Writer ----------------------------
EXTENDS Writer, Json, IOUtils, CSV
Calls == { <<"nil">>, <<"bool", TRUE>>, <<"long", W64(-200)>>, <<"double", <<63,240,0,0,0,0,0,0>>>>,
           <<"str", <<>>>>, <<"str", <<97, 98>>>>, <<"bin", <<>>>>, <<"bin", <<1, 2, 3>>>>, <<"ext", <<9, 1>>>>,
           <<"ext", <<9, 1, 2, 3>>>>, <<"list", 2>>, <<"map", 17>>, <<"raw", <<1, 2>>>> }
Progs == UNION { [1..n -> Calls] : n \in 1..2 } \cup { <<a, b, c>> : a \in {<<"str", <<97, 98>>>>, <<"nil">>},
             b \in {<<"list", 2>>, <<"bin", <<1, 2, 3>>>>}, c \in Calls }
Emit == (at = 1 /\ piece = 1 /\ "OUT" \in DOMAIN IOEnv)
        => CSVWrite("%1$s", <<ToJson([calls |-> prog, limit |-> limit, whole |-> whole])>>, IOEnv.OUT)
=============================================================================
