------------------------------ MODULE MCDesign ------------------------------
(* Finite instances of Design. *)
EXTENDS Design
P11 == <<<<1>>, <<1>>>>
P21 == <<<<2>>, <<1>>>>
P22 == <<<<2>>, <<2>>>>
P3 == <<<<3>>>>
P1x1 == <<<<1, 1>>>>
P2x1 == <<<<2, 1>>>>
P111 == <<<<1>>, <<1>>, <<1>>>>
P31 == <<<<3>>, <<1>>>>
Fkill == {"kill"}
Fio == {"kill", "dial"}
Fbad == {"bad", "badf", "se"}
Fall == {"kill", "dial", "bad", "badf", "se"}
Fextra == {"kill", "extra"}
Fbadextra == {"bad", "extra"}
Fnone == {}
=============================================================================
