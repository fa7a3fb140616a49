------------------------------ MODULE Sources -------------------------------
(* Where the options of a run come from: a file named on the command line, a preset named there, the
   file in the working directory, the file of the user, or nothing at all. *)
EXTENDS Config

(* What a configuration file may hold: its text and its meaning. *)
Job(s) == CHOOSE n \in 1..N : Name(n) = s
On(s) == <<Job(s), Plain(Job(s))>>
Conf(e, js, om) == [bad |-> FALSE, conf |-> [extends |-> e, jobs |-> js, omit |-> om]]
Bad == [bad |-> TRUE, conf |-> [extends |-> "", jobs |-> <<>>, omit |-> {}]]
DefaultConf == [extends |-> "default", jobs |-> <<>>, omit |-> {}]
Content == <<
  <<"{\"optimise\":{\"jobs\":{\"removeComments\":{}}}}", Conf("", <<On("removeComments")>>, {})>>,
  <<"{\"optimise\":{\"extends\":\"default\",\"jobs\":{},\"omit\":[\"remove_comments\"]}}", Conf("default", <<>>, {Job("removeComments")})>>,
  <<"{\"optimise\":{\"extends\":\"none\",\"jobs\":{\"removeTitle\":true,\"removeMetadata\":true}}}", Conf("none", <<On("removeTitle"), On("removeMetadata")>>, {})>>,
  <<"{\"lint\":{}}", [bad |-> FALSE, conf |-> DefaultConf]>>,
  <<"{}", [bad |-> FALSE, conf |-> DefaultConf]>>,
  <<"{\"optimise\":{\"extends\":\"safe\",\"jobs\":{\"removeTitle\":true}}}", Conf("safe", <<On("removeTitle")>>, {})>>,
  <<"{\"optimise\":{\"jobs\":{}}}", Conf("", <<>>, {})>>,
  <<"{\"optimise\":{\"extends\":\"default\",\"jobs\":{\"removeTitle\":true},\"omit\":[\"convert_shape_to_path\",\"remove_title\"]}}", Conf("default", <<On("removeTitle")>>, {Job("convertShapeToPath"), Job("removeTitle")})>>,
  <<"{", Bad>>,
  <<"", Bad>>,
  <<"\"default\"", Bad>>,
  <<"{\"optimise\":{\"extends\":\"nothing\",\"jobs\":{}}}", Bad>>,
  <<"{\"optimise\":{\"jobs\":{\"removeComments\":7}}}", Bad>>,
  <<"{\"lint\":3}", Bad>>,
  <<"{\"optimise\":{\"jobs\":{}}} x", Bad>>
>>
(* A place for a file: 0 nothing there, -1 something that is not a file, -2 a file that is not text, else a content. *)
Places == {0, -1, -2} \cup 1..Len(Content)
Broken(f) == f < 0 \/ (f > 0 /\ Content[f][2].bad)
Holding(f) == Content[f][2].conf

(* c: [named, preset, local, base]; named is "" when no file is named, preset "" when none is named. *)
NoName == -9
Named(c) == c.named # NoName
Nearest(c) == IF c.local # 0 THEN c.local ELSE c.base
Verdict(c) ==
  CASE Named(c) -> IF c.named = 0 \/ Broken(c.named) THEN "fail" ELSE IF Broken(Nearest(c)) THEN "either" ELSE "run"
    [] c.preset # "" -> IF Broken(Nearest(c)) THEN "either" ELSE "run"
    [] OTHER -> IF Broken(Nearest(c)) THEN "fail" ELSE "run"
InEffect(c) ==
  CASE Named(c) -> Holding(c.named)
    [] c.preset # "" -> [extends |-> c.preset, jobs |-> <<>>, omit |-> {}]
    [] Nearest(c) # 0 -> Holding(Nearest(c))
    [] OTHER -> DefaultConf

(* What can be told from a document: which of these jobs did their work on it. *)
Telling == {"removeComments", "removeTitle", "removeMetadata", "convertShapeToPath"}
(* JSX has no comments. *)
Told(op) == IF op = "jsx" THEN Telling \ {"removeComments"} ELSE Telling
Marks(conf, op) == {s \in Told(op) : Resolve(conf)[Job(s)][1] = "on"}

Cases == {[named |-> x, preset |-> p, local |-> l, base |-> b] : x \in Places \cup {NoName}, p \in {"", "none", "default", "safe"}, l \in Places, b \in Places}
(* The order of precedence, as laws. *)
Alike(c, d) == Verdict(c) = "run" /\ Verdict(d) = "run" => InEffect(c) = InEffect(d)
ASSUME \A c \in {x \in Cases : x.base \in {0, 1}} : Named(c) => Alike(c, [c EXCEPT !.preset = "safe", !.local = 2, !.base = 3])
ASSUME \A c \in {x \in Cases : x.named = NoName} : c.preset # "" => Alike(c, [c EXCEPT !.local = 2, !.base = 3])
ASSUME \A c \in {x \in Cases : x.named = NoName /\ x.preset = "" /\ x.local > 0} : Alike(c, [c EXCEPT !.base = 3])
ASSUME \A i, j \in {1, 2, 3, 4, 6, 7, 8} : i # j => Marks(Holding(i), "optimise") # Marks(Holding(j), "optimise")
=============================================================================
