------------------------------- MODULE CalMC -------------------------------
(* every zone with times around the ends of days, months, leap years, centuries, the epoch and changes of daylight-saving time, in every format *)
EXTENDS Cal
CONSTANTS MaxDepth, Emit, Big
VARIABLES s, hist
I0 == {Init0}
Canon(st) == st
Op(o, args) == [op |-> o, a |-> args]
DstDays == UNION {{RuleDay(y, Zones[z].b), RuleDay(y, Zones[z].e)} : y \in IF Big THEN {1986, 2000, 2024, 2099} ELSE {2024}, z \in {"NewYork", "Sydney", "London"}}
Ds(z) == IF Zones[z].b # <<>> THEN DstDays
         ELSE {0, -1, Days(2000, 2, 29), Days(1900, 2, 28), Days(1999, 12, 31), Days(2100, 3, 1)} \cup IF Big THEN {1, -365, 11016, 11017, 24855, 24856, Days(1600, 2, 29), Days(1000, 1, 2), Days(9999, 12, 30), Days(2024, 12, 30), Days(2020, 12, 31)} ELSE {}
Ms == {0, 86399999, 43200500} \cup IF Big THEN {999, 1000, 3600000} ELSE {}
MsD == {3600000 * h + x : h \in {0, 1, 2, 3, 6, 7, 15, 16, 17}, x \in {0, 3599999}} \cup {1799000}
Convs == {"%Y", "%m", "%d", "%H", "%M", "%S", "%f", "%y", "%C", "%e", "%j", "%u", "%w", "%I", "%p", "%a", "%A", "%b", "%B", "%U", "%W", "%G", "%V", "%F", "%T", "%R", "%D", "%c", "%z", "%%"}
Fmts == {<<c>> : c \in Convs} \cup {<<"%S", ".", "%f", "x">>, <<"%%", "f", "%f">>, <<"a", "%f", "%%">>, Iso}
Trips == {<<"%F", " ", "%T">>, <<"%Y", "%m", "%d", " ", "%H", "%M", "%S", ".", "%f">>, <<"%f", " ", "%d", "/", "%m", "/", "%Y", " ", "%R">>, <<"%B", " ", "%e", " ", "%Y", " ", "%I", ":", "%M", " ", "%p">>,
          <<"%d", ".", "%m", ".", "%y", " ", "%T">>, <<"%F">>, <<"%c">>, <<"%F", "T", "%T", ".", "%f", "Z">>}
Fs == {<<1970, 1, 1, 0, 0, 0>>, <<1969, 12, 31, 23, 59, 59>>, <<2024, 2, 30, 1, 2, 3>>, <<2023, 13, 1, 0, 0, 0>>, <<2024, 3, 10, 2, 30, 0>>, <<2024, 11, 3, 1, 30, 0>>, <<2024, 0, 1, 1, 1, 1>>, <<2024, 1, 32, 1, 1, 1>>}
SmallOps(st) ==
  IF st = Init0 THEN {Op("zone", <<z>>) : z \in DOMAIN Zones}
  ELSE IF st.t = Init0.t THEN {Op("set", <<d, m>>) : d \in Ds(st.z), m \in IF Zones[st.z].b = <<>> THEN Ms ELSE MsD}
         \cup {Op("parse", <<f, p, u, ds, o>>) : f \in Fs, p \in {<<"%F", " ", "%T">>, <<"%F", "T", "%R">>}, u \in BOOLEAN, ds \in {<<>>}, o \in {<<"none">>, <<"+", 19800>>, <<"-", 5400>>}}
         \cup {Op("parse", <<f, <<"%F", "T", "%T">>, u, ds, o>>) : f \in Fs, u \in BOOLEAN, ds \in {<<5>>, <<0, 0, 7>>, <<9, 9, 9, 9>>}, o \in {<<"none">>, <<"+", 19800>>}}
  ELSE {Op("fmt", <<p, u>>) : p \in Fmts, u \in BOOLEAN} \cup {Op("std", <<k, u>>) : k \in {"plain", "iso"}, u \in BOOLEAN} \cup {Op("rtd", <<k, u>>) : k \in {"plain", "iso"}, u \in BOOLEAN}
       \cup {Op("rt", <<p, u>>) : p \in Trips, u \in BOOLEAN} \cup {Op("secs", <<>>)}
INSTANCE Explore WITH InitSet <- I0
=============================================================================
