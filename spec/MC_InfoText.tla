---------------------------- MODULE MC_InfoText ----------------------------
(***************************************************************************)
(* Options are given one after another; after each the class is told.      *)
(* Each part is there exactly when asked for, members exactly as their     *)
(* visibility admits, and asking for more takes nothing away.              *)
(***************************************************************************)
EXTENDS InfoText, FiniteSets, Json, IOUtils, SequencesExt, Naturals, Sequences, TLC
CONSTANT Careless

Base == [name |-> "", type |-> "int", words |-> <<>>, argtypes |-> <<>>, flags |-> 0, desc |-> "", sig |-> <<>>, annos |-> <<>>, value |-> <<>>, deprecated |-> FALSE, synthetic |-> FALSE,
         has |-> FALSE, stack |-> 2, locals |-> 3, args |-> 1, code |-> <<>>, handlers |-> <<>>, linenos |-> <<>>, vars |-> <<>>, vartypes |-> <<>>, throws |-> <<>>]
\* one member of each visibility; the protected method has code and everything else
Flags == <<1, 4, 0, 2>>
F(k) == [Base EXCEPT !.name = "f" \o N(k), !.desc = "field f" \o N(k), !.flags = Flags[k], !.sig = IF k = 2 THEN <<"TT;">> ELSE <<>>,
                     !.value = IF k = 1 THEN <<<<"int", "5", "i:5">>>> ELSE <<>>, !.annos = IF k = 4 THEN <<"An()">> ELSE <<>>]
M(k) == [Base EXCEPT !.name = "m" \o N(k), !.desc = "method m" \o N(k), !.flags = Flags[k] + (IF k = 3 THEN 8 + 64 + 128 + 4096 ELSE 0), !.deprecated = k = 1, !.synthetic = k = 3, !.has = k = 2,
                     !.code = IF k = 2 THEN <<[at |-> 0, op |-> "ldc", args |-> <<"7">>], [at |-> 2, op |-> "athrow", args |-> <<>>]>> ELSE <<>>,
                     !.handlers = IF k = 2 THEN <<[from |-> 0, to |-> 12, at |-> 125, type |-> "any"]>> ELSE <<>>,
                     !.linenos = IF k = 2 THEN <<<<0, 41>>>> ELSE <<>>, !.vars = IF k = 2 THEN <<[at |-> 0, len |-> 3, slot |-> 1, name |-> "v", type |-> "I"]>> ELSE <<>>,
                     !.vartypes = IF k = 2 THEN <<[at |-> 0, len |-> 3, slot |-> 1, name |-> "w", type |-> "TT;"]>> ELSE <<>>,
                     !.throws = IF k = 2 THEN <<"java.io.IOException">> ELSE <<>>]
C == [name |-> "A", super |-> <<"B">>, ifaces |-> <<"I", "J">>, source |-> <<"A.java">>, sig |-> <<"LB;">>, encl |-> <<"X.m()V">>, annos |-> <<"An(1)", "Bn()">>,
      desc |-> "public class A extends B", major |-> 52, minor |-> 3, platform |-> <<"1.8">>,
      consts |-> <<[i |-> 1, t |-> "Utf8", v |-> "A", j |-> "s:A"], [i |-> 2, t |-> "int", v |-> "5", j |-> "i:5"]>>, prov |-> <<"A", "A.m1()">>, req |-> <<"B", "I">>,
      fields |-> [k \in 1..4 |-> F(k)], methods |-> [k \in 1..4 |-> M(k)]]

Flagged == {"lines", "locals", "code", "sigs", "consts", "verbose", "cprov", "creq"}
None0 == [show |-> PUBLIC, zip |-> FALSE, manifest |-> FALSE, jprov |-> FALSE, jreq |-> FALSE, classes |-> FALSE, dprov |-> FALSE, dreq |-> FALSE,
          lines |-> FALSE, locals |-> FALSE, code |-> FALSE, sigs |-> FALSE, consts |-> FALSE, verbose |-> FALSE, cprov |-> FALSE, creq |-> FALSE]
Word == [lines |-> "-l", locals |-> "-o", code |-> "-c", sigs |-> "-s", consts |-> "-p", verbose |-> "--verbose", cprov |-> "--class-provides", creq |-> "--class-requires"]
ShowWord(n) == CASE n = HEADER -> "--header" [] n = PUBLIC -> "--public" [] n = PACKAGE -> "--package" [] OTHER -> "--private"

VARIABLES o, given
vars == <<o, given>>
Init == o = None0 /\ given = <<>>
Most == 9
Next == /\ Len(given) < Most
        /\ \/ \E f \in Flagged : ~o[f] /\ o' = [o EXCEPT ![f] = TRUE] /\ given' = Append(given, Word[f])
           \/ \E n \in {HEADER, PUBLIC, PACKAGE, PRIVATE} : n # o.show /\ o' = [o EXCEPT !.show = n] /\ given' = Append(given, ShowWord(n))
\* the order in which they were given is of no matter
View == o

\* a careless teller takes the package's members for everyone's
Told(oo) == IF Careless /\ oo.show = PACKAGE THEN ClassText([oo EXCEPT !.show = PRIVATE], C) ELSE ClassText(oo, C)
Has(q, piece) == \E i \in 1..Len(q) : q[i] = piece
HasLn(q, s) == Has(q, s \o "\n")
E == Effective(o)
Api == o.cprov \/ o.creq
Want(k) == ~Api /\ (o.show = PRIVATE \/ (k = 1 /\ o.show # HEADER) \/ (k = 2 /\ o.show = PACKAGE))
Exact ==
  LET q == Told(o) IN
  /\ \A k \in 1..4 : HasLn(q, "method m" \o N(k) \o ";") = Want(k) /\ HasLn(q, "field f" \o N(k) \o ";") = Want(k)
  /\ HasLn(q, "  Code:") = (Want(2) /\ E.code) /\ HasLn(q, "   0:\tldc\t7") = (Want(2) /\ E.code) /\ HasLn(q, "   2:\tathrow") = (Want(2) /\ E.code)
  /\ HasLn(q, "     0\t  12\t 125\tany") = (Want(2) /\ E.code)
  /\ HasLn(q, "   Stack=2, Locals=3, Args_size=2") = (Want(2) /\ E.verbose)
  /\ HasLn(q, "   line 41: 0") = (Want(2) /\ E.lines)
  /\ HasLn(q, "   0\t3\t1\tv\tI") = (Want(2) /\ E.locals) /\ HasLn(q, "   0\t3\t1\tw\tTT;") = (Want(2) /\ E.locals)
  /\ HasLn(q, "  Signature: TT;") = (Want(2) /\ E.sigs)
  /\ HasLn(q, "   throws java.io.IOException") = (Want(2) /\ E.verbose)
  /\ HasLn(q, "  Constant value: int 5") = (Want(1) /\ E.verbose) /\ HasLn(q, "  Deprecated: true") = (Want(1) /\ E.verbose)
  /\ HasLn(q, "  Bridge: true") = (Want(3) /\ E.verbose) /\ HasLn(q, "  Synthetic: true") = (Want(3) /\ E.verbose)
  /\ HasLn(q, "  0: An()") = (Want(4) /\ E.verbose)
  /\ HasLn(q, "const #2 = int\t5;") = (~Api /\ E.consts)
  /\ HasLn(q, "  major version: 52") = (~Api /\ (o.show = HEADER \/ E.verbose)) /\ HasLn(q, "  1: Bn()") = (~Api /\ (o.show = HEADER \/ E.verbose))
  /\ Has(q, "public class A extends B") = ~Api
  /\ HasLn(q, "  A.m1()") = o.cprov /\ HasLn(q, "  I") = o.creq
\* as JSON, each thing has one value, and members and parts are the same
Tree == LET t == ClassTree(o, C) IN
  /\ \A x, y \in t : x[1] = y[1] => x = y
  /\ <<"/methods/#", N(Cardinality({k \in 1..4 : o.show = PRIVATE \/ (k = 1 /\ o.show # HEADER) \/ (k = 2 /\ o.show = PACKAGE)}))>> \in t
  /\ (<<"/constants_pool/1/2", "i:5">> \in t) = E.consts /\ (<<"/class_provides/#", "2">> \in t) = o.cprov
\* asking for more takes nothing away (but that the api is told instead of the rest)
Parts(q) == {q[i] : i \in 1..Len(q)} \ {"   "}
Adds == [][(o.show # HEADER /\ (o'.cprov \/ o'.creq) = Api /\ o'.show >= o.show) => Parts(Told(o)) \subseteq Parts(Told(o'))]_vars
\* shares of nothing, of some, of more than there was
ASSUME Shares([size |-> 0, comp |-> 0]) = {0} /\ Shares([size |-> 8, comp |-> 4]) = {500} /\ Shares([size |-> 2000, comp |-> 1]) = {0, 1} /\ Shares([size |-> 3, comp |-> 5]) = {1667}

Asked == {f \in SUBSET Flagged : TRUE}
Scen == {[words |-> <<ShowWord(n)>> \o SetToSeq({Word[x] : x \in f})] : n \in {HEADER, PUBLIC, PACKAGE, PRIVATE}, f \in Asked}
ASSUME ("SCEN" \notin DOMAIN IOEnv) \/ ndJsonSerialize(IOEnv.SCEN, SetToSeq(Scen))
=============================================================================
