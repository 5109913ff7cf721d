------------------------------ MODULE MCReader ------------------------------
EXTENDS Reader
VA == <<86, 65, 32>>
Pempty == {<<>>}
Pall == {<<>>, VA, <<86, 65, 32, 50, 13, 10>>, <<72, 68>>, <<72, 68, 13, 10, 86, 65, 32, 48, 13>>, <<86, 65, 32, 50, 13, 10, 72, 13, 13>>}
Pnum == {<<86, 65, 32, 50, 48, 48, 48, 48, 48, 48>>, <<86, 65, 32, 48, 48, 48, 48, 48, 48, 48, 48>>}
=============================================================================
