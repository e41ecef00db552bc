------------------------------ MODULE ServerModel ------------------------------
(* All sessions over a few names and texts: laws of the state machine, and (Print) every transition, which the driver replays in the real server. *)
EXTENDS Server
CONSTANTS Names, Texts, LibNames
VARIABLES s, last
Forms(t) == IF t = "t0" THEN {} ELSE IF t = "t1" THEN {"f1", "f2"} ELSE {"f2", "f3"}
Lib == [n \in LibNames |-> [text |-> "t2", forms |-> Forms("t2")]]
Cmds == {[o |-> o, n |-> n, t |-> "", f |-> {}] : o \in {"STAGE", "UNSTAGE", "REMOVE", "DOWNLOAD", "LOAD"}, n \in Names}
        \cup {[o |-> "ADD", n |-> n, t |-> t, f |-> Forms(t)] : n \in Names, t \in Texts}
        \cup {[o |-> o, n |-> "", t |-> "", f |-> {}] : o \in {"LIST", "FOO"}} \cup {[o |-> "RUN", n |-> "j", t |-> "t3", f |-> {"g"}]}
Init == s = <<>> /\ last = None
Next == \E c \in Cmds : LET r == Step(s, Lib, TRUE, c) IN s' = r.s /\ last' = [c |-> c, a |-> r.a]
Edges == PrintT(<<"EDGE", ToString(s), last'.c.o, last'.c.n, last'.c.t, last'.a.code, ToString(s')>>)
View == s
(* laws *)
Frame == [][\A n \in (DOMAIN s \cup DOMAIN s') \ {last'.c.n} : n \in DOMAIN s /\ n \in DOMAIN s' /\ s[n] = s'[n]]_s
ErrorChangesNothing == [][last'.a.code \in 400..499 => s' = s]_<<s, last>>
ReadOnly == [][last'.c.o \in {"LIST", "DOWNLOAD", "RUN", "FOO", "HELP"} => s' = s]_<<s, last>>
TextFixed == [][\A n \in DOMAIN s \cap DOMAIN s' : s[n].text = s'[n].text]_s
StagedStays == [][\A n \in Staged(s) : n \in DOMAIN s']_s
OneCode == [][last'.a.code \in {200, 201, 202, 203, 204, 205, 206, 401, 403, 404, 405, 406, 407, 408}]_<<s, last>>
RunUsesStaged == [][last'.c.o = "RUN" => last'.a.used = UNION {Forms(s[n].text) : n \in Staged(s)} \cup {"g"}]_<<s, last>>
=============================================================================
