----------------------------- MODULE ValidTrace -----------------------------
(* The question asked of real objects, after every history of settings.    *)
EXTENDS Validity, TLC, F64, Json, IOUtils
VARIABLES s, l, st
vars == <<s, l, st>>
Scn == ndJsonDeserialize(IOEnv.TRACE)
When(c, name) == IF c THEN {} ELSE {name}
I(e, k, d) == IF k \in DOMAIN e THEN RToInt(RDec(e[k])) ELSE d
List(e, k) == IF k \in DOMAIN e /\ e[k] # "" THEN RSplit(e[k]) ELSE << >>
Apply(x, e) ==
    IF e.threw THEN x ELSE
    CASE e.what = "coords" -> [x EXCEPT !.coords = I(e, "n", 0), !.dim = I(e, "dim", 2), !.nt = I(e, "nt", I(e, "n", 0))]
      [] e.what = "x" -> [x EXCEPT !.xn = I(e, "n", 0), !.xk = I(e, "k", 0)]
      [] e.what = "y" -> [x EXCEPT !.y = I(e, "n", 0)]
      [] e.what = "w" -> [x EXCEPT !.w = [kind |-> e.kind, bw |-> I(e, "bw", 0), ad |-> I(e, "ad", 1), kern |-> IF "kern" \in DOMAIN e THEN e.kern ELSE "gaussian"]]
      [] e.what = "ws" -> [x EXCEPT !.ws = [i \in 1..Len(List(e, "kinds")) |-> [kind |-> List(e, "kinds")[i], bw |-> RToInt(RDec(List(e, "bws")[i])), ad |-> I(e, "ad", 1), kern |-> "gaussian"]]]
      [] e.what = "inits" -> [x EXCEPT !.inits = I(e, "m", 0), !.initv = e.v]
      [] e.what = "apps" -> [x EXCEPT !.apps = I(e, "m", 0)]
      [] e.what = "cens" -> [x EXCEPT !.cens = I(e, "m", 0)]
      [] e.what = "thrs" -> [x EXCEPT !.thrs = I(e, "m", 0)]
      [] e.what = "keep" -> [x EXCEPT !.keep = I(e, "k", 0)]
      [] e.what = "auto" -> [x EXCEPT !.auto = e.v = "1"]
Step(x, e) ==
    CASE e.ev = "obj" -> [st |-> Unset(e.alg), bad |-> {}]
      [] e.ev = "set" -> [st |-> Apply(x, e), bad |-> {}]
      [] e.ev = "go" -> [st |-> x, bad |-> {}]
      [] e.ev = "ask" -> [st |-> x,
            bad |-> When(~e.threw, "asking does not fail")
                    \cup When(e.before = e.after, "asking changes nothing")
                    \cup When(e.valid = e.again, "asking twice gives the same answer")
                    \cup (IF e.threw \/ Open(x) THEN {} ELSE When(e.valid = Valid(x), IF e.valid THEN "not valid unless complete" ELSE "valid when complete"))]
      [] e.ev = "done" -> [st |-> x, bad |-> {}]
      [] OTHER -> [st |-> x, bad |-> {"run ends without " \o e.ev}]
Init == s \in 1..Len(Scn) /\ l = 1 /\ st = Unset("none")
Next == /\ l <= Len(Scn[s].tr)
        /\ LET r == Step(st, Scn[s].tr[l]) IN
           /\ IF r.bad = {} THEN TRUE ELSE PrintT("REJ" \o ToJson([id |-> Scn[s].id, l |-> l, bad |-> r.bad]))
           /\ st' = r.st
        /\ l' = l + 1
        /\ s' = s
=============================================================================
