-------------------------------- MODULE Dates --------------------------------
(***************************************************************************)
(* Proleptic Gregorian calendar <-> Modified Julian Day number, defined     *)
(* from first principles (lengths of years and months).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m \in {4, 6, 9, 11} THEN 30
                  ELSE IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE 31
ValidDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)
(* days from 0000-03-01 (proleptic) to y-m-d *)
CumDays(m) == <<306, 337, 0, 31, 61, 92, 122, 153, 184, 214, 245, 275>>[m]
DayNo(y, m, d) == LET yy == IF m <= 2 THEN y - 1 ELSE y IN
                  365 * yy + yy \div 4 - yy \div 100 + yy \div 400 + CumDays(m) + d - 1
(* MJD 0 = 1858-11-17 *)
Mjd(y, m, d) == DayNo(y, m, d) - DayNo(1858, 11, 17)
NextDay(y, m, d) == IF d < MonthLen(y, m) THEN <<y, m, d + 1>>
                    ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>
Digit(k) == SubSeq("0123456789", k + 1, k + 1)
Two(n) == Digit((n \div 10) % 10) \o Digit(n % 10)
Four(n) == Digit((n \div 1000) % 10) \o Digit((n \div 100) % 10) \o Two(n % 100)
Iso(y, m, d) == Four(y) \o "-" \o Two(m) \o "-" \o Two(d)

IsDigit(c) == \E k \in 0..9 : c = Digit(k)
DigVal(c) == CHOOSE k \in 0..9 : c = Digit(k)
NumAt(s, a, b) == (* value of the digits a..b of string s *)
  LET RECURSIVE V(_, _)
      V(k, acc) == IF k > b THEN acc ELSE V(k + 1, acc * 10 + DigVal(SubSeq(s, k, k)))
  IN V(a, 0)
(* "YYYY-MM-DD" with anything following *)
IsIso(s) == /\ Len(s) >= 10
            /\ \A k \in {1, 2, 3, 4, 6, 7, 9, 10} : IsDigit(SubSeq(s, k, k))
            /\ SubSeq(s, 5, 5) = "-" /\ SubSeq(s, 8, 8) = "-"
IsoYMD(s) == <<NumAt(s, 1, 4), NumAt(s, 6, 7), NumAt(s, 9, 10)>>
IsoMjd(s) == LET t == IsoYMD(s) IN Mjd(t[1], t[2], t[3])
(* date of an MJD in 1901..2099 *)
DateOf(n) ==
  LET y0 == 1858 + n \div 366
      RECURSIVE Y(_)
      Y(y) == IF Mjd(y + 1, 1, 1) <= n THEN Y(y + 1) ELSE y
      y == Y(y0)
      RECURSIVE M(_)
      M(m) == IF m < 12 /\ Mjd(y, m + 1, 1) <= n THEN M(m + 1) ELSE m
      m == M(1)
  IN <<y, m, n - Mjd(y, m, 1) + 1>>
=============================================================================
