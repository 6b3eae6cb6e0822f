----------------------------- MODULE MC_JarSign -----------------------------
(***************************************************************************)
(* A jar is signed by one signer, and perhaps by a second one under        *)
(* another name; then it passes through the hands of somebody without      *)
(* their keys, who changes entries, the manifest, signature files and      *)
(* blocks at will, consistently or not, and may sign with a key of his     *)
(* own.  Digests are perfect here (the digest of a thing is the thing),    *)
(* and so are signatures.  Whatever was done: when verification with the   *)
(* signer's certificate succeeds, every entry of the jar is one the signer *)
(* signed, and so is what the manifest says about it.                      *)
(***************************************************************************)
EXTENDS JarSign, TLC, Json, IOUtils
CONSTANTS Depth, ScenDepth

Names == <<Lit("a.txt"), Lit("b.txt"), Lit("META-INF/c")>>
Alias == <<Lit("X"), Lit("YY")>>
Keys == {1, 2, 3}            \* two signers; the third is somebody else
ALG == 3
Extra == Lit("Extra")
CREATED == Lit("Created")

(* digests: the thing itself, tagged by its kind *)
Dig(alg, data) == IF alg = ALG THEN data ELSE <<0, 0>>
DigC(alg, c) == IF alg = ALG THEN <<1, c>> ELSE <<0, 0>>
Plain(v) == <<9, v>>
Mk(main, names, attr) ==
  [ok |-> TRUE, main |-> main, mainraw |-> <<3, main>>, names |-> names, attr |-> attr, raws |-> [n \in names |-> <<2, attr[n]>>],
   whole |-> <<4, main, {<<n, attr[n]>> : n \in names}>>]
DK == Algs[ALG] \o DIGEST
SigOf(mf) == Mk({<<SIGVERSION, Plain(1)>>, <<Algs[ALG] \o WHOLE, mf.whole>>, <<Algs[ALG] \o MAINATTRS, mf.mainraw>>},
                mf.names, [n \in mf.names |-> {<<NAME, Plain(n)>>, <<DK, mf.raws[n]>>}])
WithDigest(mf, n, c) ==
  LET ns == mf.names \cup {n}
  IN Mk(mf.main, ns, [m \in ns |-> IF m = n THEN {a \in SectionOf(mf, n) : a[1] # DK /\ a[1] # NAME} \cup {<<NAME, Plain(n)>>, <<DK, <<1, c>>>>} ELSE mf.attr[m]])
RECURSIVE WithAll(_, _, _)
WithAll(mf, f, i) == IF i > Len(Names) THEN mf
                     ELSE WithAll(IF f[i] = 0 THEN mf ELSE WithDigest(mf, Names[i], f[i]), f, i + 1)

NoBlock == [k |-> 0, sf |-> NoDoc, there |-> FALSE]
Junk == [k |-> 0, sf |-> NoDoc, there |-> TRUE]

\* a jar: contents by entry (0 none), manifest, signature files and blocks by alias
Old == Mk({<<VERSION, Plain(1)>>}, {Names[2]}, [n \in {Names[2]} |-> {<<NAME, Plain(n)>>, <<Extra, Plain(1)>>}])
Jar0 == [f |-> <<1, 2, 0>>, mf |-> Old, sf |-> <<NoDoc, NoDoc>>, bk |-> <<NoBlock, NoBlock>>]
SignBy(j, k, a) ==
  LET mf == WithAll(j.mf, j.f, 1)
  IN [j EXCEPT !.mf = mf, !.sf[a] = SigOf(mf), !.bk[a] = [k |-> k, sf |-> SigOf(mf), there |-> TRUE]]

(* the moves of somebody in between *)
Do(j, m) ==
  CASE m.m = "set" -> [j EXCEPT !.f[m.n] = m.c]
    [] m.m = "mfset" -> [j EXCEPT !.mf = WithDigest(@, Names[m.n], m.c)]
    [] m.m = "mfdel" -> [j EXCEPT !.mf = Mk(@.main, @.names \ {Names[m.n]}, [n \in @.names \ {Names[m.n]} |-> @.attr[n]])]
    [] m.m = "mfattr" -> [j EXCEPT !.mf = Mk(@.main, @.names, [@.attr EXCEPT ![Names[m.n]] = @ \cup {<<CREATED, Plain(7)>>}])]
    [] m.m = "mfmain" -> [j EXCEPT !.mf = Mk(@.main \cup {<<CREATED, Plain(7)>>}, @.names, @.attr)]
    [] m.m = "mfgone" -> [j EXCEPT !.mf = NoDoc]
    [] m.m = "sfredo" -> [j EXCEPT !.sf[m.a] = SigOf(j.mf)]
    [] m.m = "sfdrop" -> [j EXCEPT !.sf[m.a] = Mk({x \in @.main : x[1] # Algs[ALG] \o WHOLE}, @.names, @.attr)]
    [] m.m = "sfgone" -> [j EXCEPT !.sf[m.a] = NoDoc]
    [] m.m = "bkgone" -> [j EXCEPT !.bk[m.a] = NoBlock]
    [] m.m = "bkjunk" -> [j EXCEPT !.bk[m.a] = Junk]
    [] m.m = "forge" -> [j EXCEPT !.bk[m.a] = [k |-> 3, sf |-> j.sf[m.a], there |-> TRUE]]
    [] m.m = "bkcopy" -> [j EXCEPT !.bk[m.a] = j.bk[3 - m.a]]
    [] m.m = "sfcopy" -> [j EXCEPT !.sf[m.a] = j.sf[3 - m.a]]
    [] OTHER -> SignBy(j, 2, 2)                                     \* "sign2": the second signer signs
May(j, m) ==
  CASE m.m = "set" -> j.f[m.n] # m.c
    [] m.m \in {"mfset", "mfmain", "mfgone"} -> j.mf.ok
    [] m.m \in {"mfdel", "mfattr"} -> j.mf.ok /\ Names[m.n] \in j.mf.names
    [] m.m = "sfredo" -> j.mf.ok /\ j.sf[m.a].ok
    [] m.m \in {"sfdrop", "sfgone", "forge"} -> j.sf[m.a].ok
    [] m.m \in {"bkgone", "bkjunk"} -> j.bk[m.a].there
    [] m.m = "bkcopy" -> j.bk[3 - m.a].there
    [] m.m = "sfcopy" -> j.sf[3 - m.a].ok
    [] OTHER -> j.mf.ok /\ ~j.sf[2].ok
M(m, n, c, a) == [m |-> m, n |-> n, c |-> c, a |-> a]
Moves == {M("set", n, c, 0) : n \in 1..3, c \in 0..2} \cup {M("mfset", n, c, 0) : n \in 1..3, c \in 1..2}
         \cup {M(x, n, 0, 0) : x \in {"mfdel", "mfattr"}, n \in 1..3}
         \cup {M(x, 0, 0, 0) : x \in {"mfmain", "mfgone", "sign2"}}
         \cup {M(x, 0, 0, a) : x \in {"sfredo", "sfdrop", "sfgone", "bkgone", "bkjunk", "forge", "bkcopy", "sfcopy"}, a \in 1..2}

(* the jar as entries, and its verification with one key's certificate.    *)
(* Contents are tagged: entries <<1, c>>, the manifest <<2>>, signature    *)
(* files <<3, alias>>, blocks <<4, alias>>                                 *)
SfName(a) == META_DIR \o Alias[a] \o Lit(".SF")
BkName(a) == META_DIR \o Alias[a] \o Lit(".RSA")
Part(c, n, x) == IF c THEN <<[n |-> n, c |-> x]>> ELSE <<>>
Entries(j) == Part(j.mf.ok, MF_NAME, <<2, 0>>)
              \o Part(j.sf[1].ok, SfName(1), <<3, 1>>) \o Part(j.bk[1].there, BkName(1), <<4, 1>>)
              \o Part(j.sf[2].ok, SfName(2), <<3, 2>>) \o Part(j.bk[2].there, BkName(2), <<4, 2>>)
              \o Part(j.f[1] # 0, Names[1], <<1, j.f[1]>>) \o Part(j.f[2] # 0, Names[2], <<1, j.f[2]>>) \o Part(j.f[3] # 0, Names[3], <<1, j.f[3]>>)
Verify(j, k, a) ==                        \* a: 0 no name given, 3 a name which is not there
  LET doc(c, p) == IF c[1] = 2 THEN j.mf ELSE j.sf[c[2]]
      sig(b, s) == j.bk[b[2]].k = k /\ j.bk[b[2]].sf = j.sf[s[2]]
      dc(alg, c) == DigC(alg, c[2])
  IN Outcome(Dig, dc, sig, doc, Entries(j), a # 0, IF a = 0 THEN <<>> ELSE IF a = 3 THEN Lit("Z.SF") ELSE Alias[a] \o Lit(".SF"))

VARIABLES jar, left, signed
vars == <<jar, left, signed>>
\* what a signer vouched for, by key: manifests.  (A section may outlive its
\* entry: whoever signs the manifest vouches for that section as well.)
Covers(mf, j) == \A i \in {x \in 1..3 : j.f[x] # 0} : <<DK, <<1, j.f[i]>>>> \in SectionOf(mf, Names[i])
Init == /\ jar \in {SignBy(Jar0, 1, 1), SignBy(SignBy(Jar0, 1, 1), 2, 2), SignBy(SignBy(Jar0, 2, 2), 1, 1)}
        /\ signed = [k \in {1, 2} |-> IF k = 1 \/ jar.sf[2].ok THEN {jar.mf} ELSE {}]
        /\ left = Depth
Next == /\ left > 0
        /\ \E m \in Moves : /\ May(jar, m)
                            /\ jar' = Do(jar, m)
                            /\ signed' = IF m.m = "sign2" THEN [signed EXCEPT ![2] = @ \cup {jar'.mf}] ELSE signed
        /\ left' = left - 1

\* success means every entry is as a manifest signed by that key says, and so is the manifest
Sound == \A k \in {1, 2} : \A a \in 0..2 :
  Verify(jar, k, a) = "" =>
    \E mf \in signed[k] : /\ Covers(mf, jar)
                          /\ jar.mf.main = mf.main
                          /\ jar.mf.names \subseteq mf.names
                          /\ \A n \in jar.mf.names : jar.mf.attr[n] = mf.attr[n]
\* signing vouches for every entry there is
SigningCovers == left = Depth => Covers(jar.mf, jar)
\* nobody's certificate but the signer's own verifies a signature
NoForgery == \A a \in 0..2 : Verify(jar, 3, a) = "" => \E b \in 1..2 : jar.bk[b].k = 3
\* an untouched jar verifies, by name, whoever else signed it
Complete == left = Depth => /\ Verify(jar, 1, 1) = "" /\ (jar.sf[2].ok => Verify(jar, 2, 2) = "")
                            /\ (~jar.sf[2].ok => Verify(jar, 1, 0) = "")
                            /\ (jar.sf[2].ok => Verify(jar, 1, 0) = "VerificationError")
                            /\ Verify(jar, 1, 3) = "VerificationError" /\ Verify(jar, 1, 2) # "" /\ Verify(jar, 2, 1) # ""
\* one signer's signature stands whatever becomes of the other's files
Independent == \A a \in 1..2 : \A m \in {M(x, 0, 0, a) : x \in {"bkgone", "bkjunk", "sfgone", "forge", "sfdrop"}} :
  \A k \in {1, 2} : (May(jar, m) /\ jar.sf[3 - a].ok) => Verify(Do(jar, m), k, 3 - a) = Verify(jar, k, 3 - a)
\* the error names the outermost part that is broken
Naming == \A k \in {1, 2} : \A a \in 1..2 :
  LET o == Verify(jar, k, a)
  IN /\ (jar.sf[a].ok /\ ~jar.bk[a].there => o = "JarSignatureMissingError")
     /\ (~jar.sf[1].ok /\ ~jar.sf[2].ok => o = "JarSignatureMissingError")
     /\ (jar.sf[a].ok /\ jar.bk[a].there /\ (jar.bk[a].k # k \/ jar.bk[a].sf # jar.sf[a]) => o = "SignatureBlockFileVerificationError")
     /\ (o = "JarChecksumError" => ManifestErrors(Dig, jar.sf[a], jar.mf) = {})

\* scenarios: a first signing, moves, and what verifications must say then
Firsts == <<SignBy(Jar0, 1, 1), SignBy(SignBy(Jar0, 1, 1), 2, 2), SignBy(SignBy(Jar0, 2, 2), 1, 1)>>
RECURSIVE Walks(_, _)
Walks(j, n) == {[ms |-> <<>>, j |-> j]} \cup
  IF n = 0 THEN {} ELSE UNION {{[ms |-> <<m>> \o w.ms, j |-> w.j] : w \in Walks(Do(j, m), n - 1)} : m \in {x \in Moves : May(j, x)}}
Row(i, w) == [first |-> i, ms |-> w.ms,
              want |-> [k \in 1..3 |-> [a \in 1..4 |-> Verify(w.j, k, a - 1)]]]
ASSUME ("SCEN" \notin DOMAIN IOEnv) \/ ndJsonSerialize(IOEnv.SCEN, SetToSeq(UNION {{Row(i, w) : w \in Walks(Firsts[i], ScenDepth)} : i \in 1..3}))
=============================================================================
