----------------------------- MODULE Durations -----------------------------
(***************************************************************************)
(* How durations (whole numbers of microseconds) are written. A duration    *)
(* that lies exactly between two numbers of hundredths may go either way.   *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC

LOCAL MS == 1000
LOCAL S == 1000000
LOCAL MIN == 60 * S
LOCAL HOUR == 60 * MIN
LOCAL Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
(* d/unit to the nearest hundredth(s), as numbers of hundredths *)
LOCAL Hundredths(d, unit) == LET q == (d * 100) \div unit
                                 r == (d * 100) % unit
                             IN IF 2 * r < unit THEN {q} ELSE IF 2 * r > unit THEN {q + 1} ELSE {q, q + 1}
LOCAL Decimal(h) == ToString(h \div 100) \o "." \o Two(h % 100)
(* with microseconds, hundredths of a second are 10^4 apart *)
LOCAL Centi(d) == LET q == d \div 10000 r == d % 10000 IN IF r < 5000 THEN {q} ELSE IF r > 5000 THEN {q + 1} ELSE {q, q + 1}
(* centiseconds as clock time; the largest unit has no leading zero unless days come before *)
LOCAL Clock(cs, days) ==
  LET s == cs \div 100 m == s \div 60 h == m \div 60 IN
  IF days > 0 THEN ToString(days) \o "d " \o Two(h % 24) \o ":" \o Two(m % 60) \o ":" \o Two(s % 60) \o "." \o Two(cs % 100)
  ELSE IF h > 0 THEN ToString(h) \o ":" \o Two(m % 60) \o ":" \o Two(s % 60) \o "." \o Two(cs % 100)
  ELSE ToString(m) \o ":" \o Two(s % 60) \o "." \o Two(cs % 100)
Written(d) ==
  IF d < MS THEN {ToString(d) \o "µs"}
  ELSE IF d < 999995 THEN {Decimal(h) \o "ms" : h \in Hundredths(d, MS)}
  ELSE LET W(cs) == IF cs < 6000 THEN Decimal(cs) \o "s" ELSE Clock(cs, cs \div 8640000) IN {W(cs) : cs \in Centi(d)}
(* the same for a whole number of units of 1, 10, 100, ... microseconds *)
WrittenIn(n, unit) ==
  IF unit < 10000
  THEN LET per == 10000 \div unit   (* a hundredth of a second *)
           q == n \div per
           r == n % per
           W(cs) == IF cs < 6000 THEN Decimal(cs) \o "s" ELSE Clock(cs, cs \div 8640000)
       IN IF n < 1000000 \div unit THEN Written(n * unit)
          ELSE {W(cs) : cs \in IF 2 * r < per THEN {q} ELSE IF 2 * r > per THEN {q + 1} ELSE {q, q + 1}}
  ELSE LET cs == n * (unit \div 10000) IN
       IF n = 0 THEN Written(0) ELSE IF cs < 100 THEN {Decimal(cs * 1000) \o "ms"}
       ELSE IF cs < 6000 THEN {Decimal(cs) \o "s"} ELSE {Clock(cs, cs \div 8640000)}
=============================================================================
