------------------------------- MODULE JarSign -------------------------------
(***************************************************************************)
(* Signed jars.                                                            *)
(*                                                                         *)
(* A jar is a sequence of entries [n |-> name, c |-> content].  The        *)
(* manifest holds digests of entries, a signature file (.SF) digests of    *)
(* the manifest as a whole and of its sections, and a signature block      *)
(* (.RSA, .DSA, .EC) a signature over the signature file.                  *)
(*                                                                         *)
(* A document (manifest or signature file) is a record                     *)
(*   ok       it reads as a manifest                                       *)
(*   whole    what a digest of all of it is computed over                  *)
(*   main, mainraw     attributes of the main section, and the section     *)
(*   names    names of its sections;  attr, raws: attributes and section   *)
(*            by name                                                      *)
(* Digests come in through the operators D(alg, data) and DC(alg, content),*)
(* signatures through S(block, sf).                                        *)
(***************************************************************************)
EXTENDS Manifest

MF_NAME == Lit("META-INF/MANIFEST.MF")
META_DIR == Lit("META-INF/")
DIGEST == Lit("-Digest")
WHOLE == Lit("-Digest-Manifest")
MAINATTRS == Lit("-Digest-Manifest-Main-Attributes")
Algs == <<Lit("MD5"), Lit("SHA1"), Lit("SHA-256"), Lit("SHA-384"), Lit("SHA-512")>>
BlockExts == <<Lit(".RSA"), Lit(".DSA"), Lit(".EC")>>

UpperC(x) == IF x \in 97..122 THEN x - 32 ELSE x
UpperB(t) == [i \in 1..Len(t) |-> UpperC(t[i])]

BlockLike(r) == StartsWith(r, Lit("SIG-")) \/ \E i \in 1..Len(BlockExts) : EndsWith(r, BlockExts[i])
(* names which signing and verifying treat specially, in any letter case *)
Reserved(n) ==
  LET u == UpperB(n)
      r == SubSeq(u, Len(META_DIR) + 1, Len(u))
  IN \/ u = MF_NAME
     \/ EndsWith(u, Lit("/"))
     \/ /\ StartsWith(u, META_DIR) /\ 47 \notin {r[i] : i \in 1..Len(r)}
        /\ EndsWith(r, Lit(".SF")) \/ BlockLike(r)
InMetaInf(n) == StartsWith(n, META_DIR) /\ 47 \notin {n[i] : i \in (Len(META_DIR) + 1)..Len(n)}
IsSF(n) == InMetaInf(n) /\ EndsWith(UpperB(n), Lit(".SF"))
AliasOf(n) == SubSeq(n, Len(META_DIR) + 1, Len(n) - 3)

(* documents out of bytes *)
NoDoc == [ok |-> FALSE, whole |-> <<>>, main |-> {}, mainraw |-> <<>>, names |-> {}, attr |-> <<>>, raws |-> <<>>]
DocOf(b, primary) ==
  LET r == ReadSections(b)
      d == Read(b, primary)
      raw == RawSections(b)
      nm(i) == Value(Attrs(r.secs[i]), NAME)
      ns == {x[1] : x \in d.subs}
      \* several sections of one name count together
      rawOf(n) == FoldLeft(LAMBDA a, i : IF nm(i) = n THEN a \o raw[i] ELSE a, <<>>, [i \in 1..(Len(raw) - 1) |-> i + 1])
  IN IF ~d.ok THEN NoDoc
     ELSE [ok |-> TRUE, whole |-> b, main |-> d.main, mainraw |-> IF raw = <<>> THEN <<>> ELSE raw[1], names |-> ns,
           attr |-> [n \in ns |-> (CHOOSE x \in d.subs : x[1] = n)[2]], raws |-> [n \in ns |-> rawOf(n)]]

(* digests: of several, one that matches is enough *)
HasAny(as, suffix) == \E i \in 1..Len(Algs) : HasKey(as, Algs[i] \o suffix)
AnyMatch(D(_, _), as, suffix, data) ==
  \E i \in 1..Len(Algs) : HasKey(as, Algs[i] \o suffix) /\ Value(as, Algs[i] \o suffix) = D(i, data)
SectionOf(doc, n) == IF n \in doc.names THEN doc.attr[n] ELSE {}

\* sections of the manifest which the signature file does not vouch for
SectionErrors(D(_, _), sf, mf, strict) ==
  {n \in mf.names : LET a == SectionOf(sf, n)
                    IN IF HasAny(a, DIGEST) THEN ~AnyMatch(D, a, DIGEST, mf.raws[n]) ELSE strict}
ManifestErrors(D(_, _), sf, mf) ==
  IF AnyMatch(D, sf.main, WHOLE, mf.whole) THEN {}
  ELSE IF ~AnyMatch(D, sf.main, MAINATTRS, mf.mainraw) THEN {MF_NAME}
  ELSE SectionErrors(D, sf, mf, TRUE)
\* entries of the jar which the manifest does not vouch for
EntryErrors(DC(_, _), mf, es, strict) ==
  {es[i].n : i \in {j \in 1..Len(es) : /\ ~Reserved(es[j].n)
                                       /\ LET a == SectionOf(mf, es[j].n)
                                          IN IF HasAny(a, DIGEST) THEN ~AnyMatch(DC, a, DIGEST, es[j].c) ELSE strict}}

(* the signature file and block meant by a signer's file name ("" none) *)
EntryNames(es) == {es[i].n : i \in 1..Len(es)}
ContentOf(es, n) == es[CHOOSE i \in 1..Len(es) : es[i].n = n /\ \A j \in (i + 1)..Len(es) : es[j].n # n].c
Chosen(es, given, name) ==
  LET sfs == {n \in EntryNames(es) : IsSF(n)}
  IN IF sfs = {} THEN [err |-> "JarSignatureMissingError", n |-> <<>>]
     ELSE IF given THEN IF META_DIR \o name \in sfs THEN [err |-> "", n |-> META_DIR \o name] ELSE [err |-> "VerificationError", n |-> <<>>]
     ELSE IF Cardinality(sfs) > 1 THEN [err |-> "VerificationError", n |-> <<>>]
     ELSE [err |-> "", n |-> CHOOSE n \in sfs : TRUE]
BlocksOf(es, sfname) ==
  {n \in EntryNames(es) : \E i \in 1..Len(BlockExts) : UpperB(n) = UpperB(META_DIR \o AliasOf(sfname) \o BlockExts[i])}
\* one with the very name wins over one in another case; of several (RSA,
\* DSA, EC) it may be any
Blocks(es, sfname) ==
  LET bs == BlocksOf(es, sfname)
      exact == {n \in bs : \E i \in 1..Len(BlockExts) : n = META_DIR \o AliasOf(sfname) \o BlockExts[i]}
  IN IF exact # {} THEN exact ELSE bs

(* the outcome of a verification: "" or the error that names what is broken *)
OutcomeBy(D(_, _), DC(_, _), S(_, _), Doc(_, _), es, sfname, block) ==
  LET sfc == ContentOf(es, sfname)
  IN IF ~S(ContentOf(es, block), sfc) THEN "SignatureBlockFileVerificationError"
     ELSE IF MF_NAME \notin EntryNames(es) THEN "MissingManifestError"
     ELSE LET sf == Doc(sfc, SIGVERSION)
              mf == Doc(ContentOf(es, MF_NAME), VERSION)
          IN IF ~sf.ok \/ ~mf.ok THEN "MalformedManifest"
             ELSE IF ManifestErrors(D, sf, mf) # {} THEN "ManifestChecksumError"
             ELSE IF EntryErrors(DC, mf, es, TRUE) # {} THEN "JarChecksumError"
             ELSE ""
Outcomes(D(_, _), DC(_, _), S(_, _), Doc(_, _), es, given, name) ==
  LET ch == Chosen(es, given, name)
  IN IF ch.err # "" THEN {ch.err}
     ELSE IF BlocksOf(es, ch.n) = {} THEN {"JarSignatureMissingError"}
     ELSE {OutcomeBy(D, DC, S, Doc, es, ch.n, b) : b \in Blocks(es, ch.n)}
Outcome(D(_, _), DC(_, _), S(_, _), Doc(_, _), es, given, name) == CHOOSE o \in Outcomes(D, DC, S, Doc, es, given, name) : TRUE

(* what signing makes of a jar.  The new manifest keeps what the old one   *)
(* said besides digests and vouches for every entry; the new signature     *)
(* file vouches for every section.                                         *)
IsDigestKey(k) == EndsWith(k, DIGEST)
Kept(as) == {a \in as : ~IsDigestKey(a[1])}
Signable(es) == {n \in EntryNames(es) : ~Reserved(n)}
SignedManifestBad(DC(_, _), alg, old, mf, es) ==
  IF ~mf.ok THEN "the manifest is malformed"
  ELSE IF mf.main # old.main THEN "the main section of the manifest changed"
  ELSE IF mf.names # old.names \cup Signable(es) THEN "the manifest has other sections than those it had and those of the entries"
  ELSE IF \E n \in old.names \ Signable(es) : mf.attr[n] # old.attr[n] THEN "a section which is no entry's changed"
  ELSE IF \E n \in Signable(es) : Kept(mf.attr[n]) # Kept(SectionOf(old, n)) \cup {<<NAME, n>>} THEN "attributes of an entry's section changed"
  ELSE IF \E n \in Signable(es) : ~HasKey(mf.attr[n], Algs[alg] \o DIGEST) THEN "an entry has no digest by the algorithm"
  ELSE IF \E n \in Signable(es) : \E i \in 1..Len(Algs) :
            HasKey(mf.attr[n], Algs[i] \o DIGEST) /\ Value(mf.attr[n], Algs[i] \o DIGEST) # DC(i, ContentOf(es, n)) THEN "an entry has a wrong digest"
  ELSE ""
SignatureFileBad(D(_, _), alg, sf, mf) ==
  LET has(as, suffix, data) == HasKey(as, Algs[alg] \o suffix) /\ Value(as, Algs[alg] \o suffix) = D(alg, data)
  IN IF ~sf.ok THEN "the signature file is malformed"
     ELSE IF ~has(sf.main, WHOLE, mf.whole) THEN "the digest of the manifest is wrong"
     ELSE IF ~has(sf.main, MAINATTRS, mf.mainraw) THEN "the digest of the main section is wrong"
     ELSE IF sf.names # mf.names THEN "the signature file has other sections than the manifest"
     ELSE IF \E n \in mf.names : ~has(sf.attr[n], DIGEST, mf.raws[n]) THEN "the digest of a section is wrong"
     ELSE ""

\* the entries signing by an alias writes anew
Replaced(alias, n) ==
  UpperB(n) \in {MF_NAME, UpperB(META_DIR \o alias \o Lit(".SF"))} \cup {UpperB(META_DIR \o alias \o BlockExts[i]) : i \in 1..Len(BlockExts)}
Others(es, alias) == SelectSeq(es, LAMBDA e : ~Replaced(alias, e.n))
Written(alias, ext) == {MF_NAME, META_DIR \o alias \o Lit(".SF"), META_DIR \o alias \o ext}
SigningBad(D(_, _), DC(_, _), S(_, _), Doc(_, _), old, alias, ext, alg, new) ==
  LET w == SelectSeq(new, LAMBDA e : e.n \in Written(alias, ext))
      r == SelectSeq(new, LAMBDA e : e.n \notin Written(alias, ext))
      o == Others(old, alias)
      \* of several entries of one name the last one is what readers see
      seen(x) == {[n |-> x[i].n, c |-> ContentOf(x, x[i].n)] : i \in 1..Len(x)}
  IN IF Len(r) # Len(o) \/ seen(r) # seen(o) THEN "the other entries are not those of the jar before"
     ELSE IF ~NoDup([i \in 1..Len(w) |-> w[i].n]) \/ EntryNames(w) # Written(alias, ext) THEN "the manifest, the signature file and the block are not there once each"
     ELSE LET mf == Doc(ContentOf(new, MF_NAME), VERSION)
              sfc == ContentOf(new, META_DIR \o alias \o Lit(".SF"))
              sf == Doc(sfc, SIGVERSION)
              m == SignedManifestBad(DC, alg, Doc(ContentOf(old, MF_NAME), VERSION), mf, old)
              f == SignatureFileBad(D, alg, sf, mf)
          IN IF m # "" THEN m ELSE IF f # "" THEN f
             ELSE IF ~S(ContentOf(new, META_DIR \o alias \o ext), sfc) THEN "the signature block does not verify"
             ELSE ""
(* a manifest created for some content: what was there before, and for     *)
(* every entry which is verified and not ignored its digests, by all the   *)
(* algorithms asked for                                                    *)
CreatedBad(DC(_, _), old, algs, ignored(_), es, mf) ==
  LET ns == {n \in Signable(es) : ~ignored(n)}
  IN IF ~mf.ok THEN "the manifest is malformed"
     ELSE IF mf.main # old.main THEN "the main section is not as it was"
     ELSE IF mf.names # old.names \cup ns THEN "the manifest has sections for other entries"
     ELSE IF \E n \in old.names \ ns : mf.attr[n] # old.attr[n] THEN "a section which is no entry's changed"
     ELSE IF \E n \in ns : mf.attr[n] # Kept(SectionOf(old, n)) \cup {<<NAME, n>>}
                                         \cup {<<Algs[algs[i]] \o DIGEST, DC(algs[i], ContentOf(es, n))>> : i \in 1..Len(algs)}
          THEN "an entry's section does not hold its digests"
     ELSE ""

(* queries: of the main section, or of a section after the last colon *)
LastColon(q) == LET cs == {i \in 1..Len(q) : q[i] = COLON} IN IF cs = {} THEN 0 ELSE CHOOSE i \in cs : \A j \in cs : j <= i
QueryLine(doc, q) ==
  LET c == LastColon(q)
      n == SubSeq(q, 1, c - 1)
      k == SubSeq(q, c + 1, Len(q))
      val(as, x) == IF HasKey(as, x) THEN Value(as, x) ELSE Lit("None")
  IN IF c = 0 THEN q \o Lit(" = ") \o val(doc.main, q) \o <<LF>>
     ELSE IF n \notin doc.names THEN q \o Lit(" : No such section") \o <<LF>>
     ELSE q \o Lit(" = ") \o val(doc.attr[n], k) \o <<LF>>
=============================================================================
