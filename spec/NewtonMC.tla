------------------------------ MODULE NewtonMC ------------------------------
EXTENDS Newton
CONSTANTS Wide
Bools == {TRUE, FALSE}
AllCfgs == [max : IF Wide THEN {0, 1, 2, 3, 6} ELSE {0, 2}, abs : IF Wide THEN {0, 1, 3} ELSE {1}, rel : IF Wide THEN {0, 10, 500} ELSE {0, 500},
            damp : Bools, upd : Bools, pre : Bools, tn : IF Wide THEN {1, 2, 3} ELSE {1, 2}, tl : IF Wide THEN {2, 5} ELSE {2}, reuse : Bools, cb : Bools]
=============================================================================
