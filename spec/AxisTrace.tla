----------------------------- MODULE AxisTrace -----------------------------
(* Sessions of axis commands: definitions, and expressions whose value and
   printed lines are recorded, with the values of all global variables after
   every command.  A command that ends in an error keeps the assignments made
   before it and changes no definition.                                      *)
EXTENDS Axis, Json, IOUtils

Progs == JsonDeserialize(IOEnv.progs)
VARIABLES p, pc, env, s, ok
vars == <<p,pc,env,s,ok>>

\* literals arrive from JSON as tagged values already
Start == [mem |-> <<>>, out |-> <<>>]
Fresh(st) == [st EXCEPT !.out = <<>>]

Globals(c,ev,st) == PrintLine([i \in 1..Len(c.gl) |-> TupV(<<StrV(""),Shown(Get(ev,c.gl[i],st))>>)])

Init == /\ p \in 1..Len(Progs)
        /\ pc = 1
        /\ env = [x \in {} |-> 0]
        /\ s = Start
        /\ ok = ""

Step ==
  /\ ok = "" /\ pc <= Len(Progs[p].cmds)
  /\ LET c == Progs[p].cmds[pc]
         r == Ev(c.e,env,Fresh(s))
         good == r.k = "v"
         es == IF good /\ c.d # <<>> THEN Bind(c.d[1],r.v,<<env,r.s>>) ELSE <<env,r.s>>
         lines == IF good /\ c.d = <<>>
                  THEN Append(r.s.out,"=" \o PrintLine(<<TupV(<<StrV(""),Shown(r.v)>>)>>))
                  ELSE r.s.out
         text == JoinWith([i \in 1..Len(lines) |-> lines[i] \o "\n"],"")
     IN /\ env' = es[1]
        /\ s' = Fresh(es[2])
        /\ ok' = IF c.obs # text THEN "output: expected " \o text
                 ELSE IF c.vars # Globals(c,es[1],es[2]) THEN "variables: expected " \o Globals(c,es[1],es[2])
                 ELSE ""
  /\ pc' = pc+1
  /\ p' = p
Spec == Init /\ [][Step]_vars
Conforms == ok = ""
Bounded == Len(s.out) = 0
View == <<p,pc,ok>>
=============================================================================
