------------------------------ MODULE MC_dates ------------------------------
(***************************************************************************)
(* The calendar: walking day by day through the years, Mjd counts the days,*)
(* DateOf inverts it, and the ISO text form denotes the day.               *)
(***************************************************************************)
EXTENDS Dates
CONSTANT Deep
VARIABLES y, m, d, n
First == IF Deep THEN 1859 ELSE 1990
Last == IF Deep THEN 2400 ELSE 2030
Init == y \in First..Last /\ m = 1 /\ d = 1 /\ n = Mjd(y, 1, 1)
Next == /\ y <= Last /\ ~(m = 12 /\ d = 31)
        /\ LET t == NextDay(y, m, d) IN y' = t[1] /\ m' = t[2] /\ d' = t[3]
        /\ n' = n + 1
Inv == /\ ValidDate(y, m, d) /\ Mjd(y, m, d) = n /\ DateOf(n) = <<y, m, d>>
       /\ IsIso(Iso(y, m, d)) /\ IsoYMD(Iso(y, m, d)) = <<y, m, d>> /\ IsoMjd(Iso(y, m, d)) = n
       /\ (m = 12 /\ d = 31) => Mjd(y + 1, 1, 1) = n + 1
(* anchors: days whose number is known independently *)
ASSUME Mjd(1858, 11, 17) = 0 /\ Mjd(2000, 1, 1) = 51544 /\ Mjd(1970, 1, 1) = 40587 /\ Mjd(2024, 2, 29) = 60369
=============================================================================
