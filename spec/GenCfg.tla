------------------------------- MODULE GenCfg -------------------------------
(* Configurations to try: every job alone in every way, every preset around it, every pair of jobs,
   plugin lists; and, by simulation, arbitrary ones. *)
EXTENDS Config, Json, Randomization

CONSTANTS Wide          \* enumerate everything small; otherwise build at random

VARIABLES done

ValidOptions(n, given) == \A o \in 1..Len(Opts(n)) : Must(Opts(n)[o][1]) => \E i \in 1..Len(given) : given[i][1] = Bare(Opts(n)[o][1])
Offs(ks) == [i \in 1..Len(ks) |-> <<ks[i], "false">>]
Silencing(n) ==
  CASE Name(n) = "cleanupAttrs" -> {Offs(<<"newlines", "trim", "spaces">>)}
    [] Name(n) = "removeUselessStrokeAndFill" -> {Offs(<<"stroke", "fill", "removeNone">>)}
    [] Name(n) = "removeEmptyText" -> {Offs(<<"text", "tspan", "tref">>)}
    [] Name(n) = "prefixIds" -> {Offs(<<"prefixIds", "prefixClassNames">>)}
    [] Name(n) = "cleanupIds" -> {Offs(<<"remove", "minify">>)}
    [] Name(n) = "removeElementsByAttr" -> {<<<<"id", "[]">>, <<"class", "[]">>>>}
    [] OTHER -> {}
Singles(n) == {Given(n, <<<<o, v>>>>) : <<o, v>> \in {<<o, v>> \in (1..Len(Opts(n))) \X (1..3) : v <= Len(Opts(n)[o][2])}}
(* Ways to configure a job: as it is, with one option, with nothing to do; some lack a needed option. *)
Ways(n) == {Plain(n)} \cup (IF IsValue(n) THEN {} ELSE {<<>>}) \cup Singles(n) \cup Silencing(n)

(* Options that make a job do something. *)
Loud(n) == CASE Must(Opts(n)[1][1]) \/ (IsValue(n) /\ ~IsSwitch(n)) -> Given(n, <<<<1, 1>>>>)
             [] Name(n) = "addClassesToSVGElement" -> Given(n, <<<<1, 1>>>>)
             [] Name(n) = "removeElementsByAttr" -> Given(n, <<<<1, 1>>, <<2, 1>>>>)
             [] OTHER -> Plain(n)

Presets == {"", "none", "default", "safe"}
Natives ==
  UNION {{[extends |-> p, jobs |-> <<<<n, w>>>>, omit |-> {}] : p \in Presets, w \in Ways(n)} : n \in 1..N}
  \cup {[extends |-> p, jobs |-> <<<<n, Loud(n)>>>>, omit |-> {m}] : n \in 1..N, p \in Presets, m \in {1, 19, 53}}
  \cup {[extends |-> p, jobs |-> <<<<n, Loud(n)>>>>, omit |-> {n}] : n \in 1..N, p \in Presets}
  \cup {[extends |-> p, jobs |-> <<>>, omit |-> {n}] : n \in 1..N, p \in Presets}
  \cup {[extends |-> p, jobs |-> <<>>, omit |-> {}] : p \in Presets}
Pairs == {[extends |-> "", jobs |-> <<<<a, Loud(a)>>, <<b, Loud(b)>>>>, omit |-> {}] : <<a, b>> \in {<<a, b>> \in (1..N) \X (1..N) : a < b}}
Withs(n) == {w \in Ways(n) : ValidOptions(n, w)}
PathJob == CHOOSE n \in 1..N : Name(n) = "convertPathData"
Plugin(n) == {<<n, "plain">>} \cup (IF n = PathJob THEN {<<n, "path", k>> : k \in 1..Len(PathPlugin)} ELSE {<<n, "with", w>> : w \in Withs(n)})
Lists == {<<>>, <<<<PRESET>>>>, <<<<Nowhere>>>>, <<<<PRESET>>, <<Nowhere>>>>}
  \cup UNION {{<<p>> : p \in Plugin(n)} : n \in 1..N}
  \cup UNION {{<<<<PRESET>>, p>> : p \in Plugin(n)} : n \in 1..N}
  \cup {<<<<n, "plain">>, <<PRESET>>>> : n \in 1..N}
  \cup UNION {{<<<<n, "plain">>, p, <<1, "plain">>>> : p \in Plugin(n)} : n \in 1..N}

Emit(kind, conf, list, set, bad) ==
  PrintT("@@" \o ToJson([kind |-> kind, extends |-> conf.extends,
     jobs |-> [i \in 1..Len(conf.jobs) |-> <<conf.jobs[i][1], Name(conf.jobs[i][1]), conf.jobs[i][2]>>],
     omit |-> [i \in 1..Cardinality(conf.omit) |-> Name(SetToSeq(conf.omit)[i])],
     omits |-> SetToSeq(conf.omit),
     plugins |-> [i \in 1..Len(list) |-> IF Len(list[i]) = 1 THEN list[i]
                                         ELSE IF list[i][2] = "path" THEN <<list[i][1], "path", list[i][3], Name(list[i][1]), PathPlugin[list[i][3]][1]>>
                                         ELSE IF list[i][2] = "with" THEN <<list[i][1], "with", list[i][3], Name(list[i][1])>>
                                         ELSE <<list[i][1], "plain", 0, Name(list[i][1])>>],
     bad |-> bad,
     steps |-> LET r == Runs(set) IN [i \in 1..Len(r) |-> <<Name(r[i]), set[r[i]][2]>>]]))
NoConf == [extends |-> "", jobs |-> <<>>, omit |-> {}]
Native(conf) == Emit("native", conf, <<>>, Resolve(conf), \E i \in 1..Len(conf.jobs) : ~ValidOptions(conf.jobs[i][1], conf.jobs[i][2]))
Listed(list) == Emit("svgo", NoConf, list, ResolveList(list), Unknown(list))

(* Simulation. *)
RandomWay(n) == IF RandomElement({TRUE, FALSE}) THEN Loud(n) ELSE RandomElement(Withs(n))
RandomConf ==
  LET js == RandomSubset(RandomElement(0..6), 1..N)
      om == RandomSubset(RandomElement(0..5), 1..N)
      sq == SetToSeq(js)
  IN  [extends |-> RandomElement(Presets), jobs |-> [i \in 1..Len(sq) |-> <<sq[i], RandomWay(sq[i])>>], omit |-> om]
RandomList == [i \in 1..RandomElement(1..5) |-> IF RandomElement(1..6) = 1 THEN <<PRESET>> ELSE RandomElement(Plugin(RandomElement(1..N)))]

Init == done = 0
Next ==
  IF Wide
  THEN /\ done = 0
       /\ \/ \E c \in Natives : Native(c) /\ done' = 1
          \/ \E c \in Pairs : Native(c) /\ done' = 2
          \/ \E l \in Lists : Listed(l) /\ done' = 3
  ELSE \E c \in {RandomConf} : \E l \in {RandomList} : Native(c) /\ Listed(l) /\ done' = done + 1
Spec == Init /\ [][Next]_done

(* The meaning of a configuration, as properties of the specification itself. *)
ASSUME \A i, j \in 1..N : i # j => Name(i) # Name(j)
ASSUME \A n \in 1..N : Plain(n) \in Ways(n) /\ ValidOptions(n, Plain(n))
(* Omitting wins over everything; configuring wins over the preset; configuring nothing is the preset. *)
Wins == \A c \in Natives : LET s == Resolve(c) IN
   /\ \A n \in c.omit : s[n][1] = Off
   /\ \A i \in 1..Len(c.jobs) : c.jobs[i][1] \notin c.omit => s[c.jobs[i][1]] = <<"on", c.jobs[i][2]>>
   /\ \A n \in 1..N : s[n][1] = "on" /\ ~Configured(c, n) => Preset(c.extends, n)
   /\ \A k \in 1..(Len(Runs(s)) - 1) : Runs(s)[k] < Runs(s)[k + 1]
(* The preset as a plugin is the preset as a preset. *)
Same == ResolveList(<<<<PRESET>>>>) = Resolve([extends |-> "default", jobs |-> <<>>, omit |-> {}])
Law == done = 0 => (Wins /\ Same)
=============================================================================
