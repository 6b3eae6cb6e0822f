#!/usr/bin/env python3
"""writes known_findings.jsonl: genuine defects, repaired (fixed) or kept (known)"""
import json
import os
FIXED = [l.split("|", 2) for l in """\
C04|e35d09c|bipush operands of 128 and more were disassembled as positive numbers
C04|e1c31b6|the first operand of multianewarray was not known to be a constant pool index (C04, C08)
C03|73788ee|Deprecated and Synthetic attributes, which are always empty, were taken for absent (C03, C09)
C02|0b3c02a|rendering MethodType, MethodHandle, Module, Package and Dynamic constants raised an exception
C02|afcee39|supplementary characters of modified UTF-8 constants were lost
C06|48fbfc2|classes mentioned only through arrays of two and more dimensions were not required
C03|9798ef8|a magic number already read from a stream and given as bytes was refused
C03|3faf19c|the name of an anonymous inner class raised an exception
C05|e53b3b2|get_method_bridges with argument types given as a list found nothing
C08|e1c95d8|constants were compared as Python values: 0.0 with -0.0, 1 with 1.0, NaN with itself (C08, C09)
C08|a2236cb|members sharing an identifier were paired crosswise or lost
C10|0172537|a method which became abstract or concrete was compared with missing code and failed (C10, C11)
C10|25ef727|ignore options for class comparison had no effect or masked other facets
C12|0cc83e9|archives given as file names were closed before their entries were compared
C12|40e13a3|entries of exploded archives were read as text
C12|f5135bc|is_zipstream failed on bytes
C13|1881978|copydir failed for files two and more levels below a new directory
C13|4299c3a|files with the same size and time were taken as the same; a file replaced by a directory was lost
C18|973cda8|folded manifest lines were decoded before being joined; malformed lines were dropped
C18|9db896e|empty manifest values were lost when written
C11|8ebaffb|the children of a childless change were collected again and lost their verdicts (C11, C14)
C14|9c10f24|--ignore-jar-entry did not cover signature entries
C14|acbb86e|--ignore-manifest-key was case-sensitive, unlike the keys (C14, C15)
C15|6d70a4c|differing files of a kind without its own comparison were reported as unchanged
C15|5fbd12d|text files were compared by lines, failed on other encodings and ignored line ends
C16|9d882c4|a failing helper process left distdiff waiting forever or with missing results
C03|5b3af98|the SourceDebugExtension attribute was shown as the representation of bytes
C03|6636c53|the AnnotationDefault attribute was read as a constant pool index
C19|87ec20f|keys_with_suffix removed any trailing characters of the suffix's set from the algorithm names
C19|a927124|verifying digests altered the manifest and ignored strict=False
C19|c77cbd6|created manifests did not cover the entries in META-INF which verification asks for (C19, C26)
C20|218fb77|digests of manifest sections were computed over a rewritten manifest rather than its bytes (C20, C21)
C20|a3ec3a9|sections were checked by digests the signature file does not hold
C21|f14702f|of several entries of one name only one was verified
C20|d8340a7|a digest by an unsupported algorithm made verification fail
C20|b6e0cfe|the manifest digest was computed over sections in another order than written
C20|01111e4|signing dropped the other attributes of manifest sections and kept stale digests
C26|344b063|manifests of directories listed files under names with the directory's path
C26|957878a|manifest create -r walked the characters of the path
C26|5cb8f03|only the last of several ignore options was effective
C26|b4d3897|sections whose names hold a colon could not be queried
C20|4968b2a|key usages Digital Signature and Non Repudiation were not recognised
C21|6052d8a|a malformed signature block raised an unrelated exception
C23|4351dec|signature files and blocks were not paired across upper and lower case
C21|03262fa|a missing or malformed manifest ended jar verification with a traceback
C20|ad4b8e6|signing with no digest given raised an exception
C20|73c6bbc|signing again by the same name left two signature files or blocks of that name (C20, C23)
C24|09fdba1|jarutil create ignored --main-class
C24|15578ad|a created jar had names more than once, a directory './', or itself (when beneath a given directory)
C04|687840e|get_line_for_offset assumed that line number tables are in increasing order of offsets
C07|22baebd|DistInfo on a zipped distribution looked for jars and classes beneath the zip file itself
C27|251b0f0|jarinfo --manifest of exploded jars, and of jars without a manifest
C27|46bad96|jarinfo --zip of a jar without content
C27|3f62727|classinfo printed an Exceptions header for methods without any
C27|8eaa91d|classinfo numbered every annotation 0
C27|96776b9|classinfo printed the minor version as the major and vice versa
C27|13517f9|classinfo --json of classes with visible members
C25|460d196|after a failed extraction the half-unpacked temporary directory was used as the distribution, and answers differed
C25|a69bc87|a jar that could not be read stayed open when a distribution collected its jars
C22|9169bdc|a failure while writing the signed jar destroyed the original
C17|d02edad|entries with absolute or parent-relative names, or sharing a name up to case or suffix, wrote reports outside of the report directory or over each other
C17|5c550d1|links of pages to sub-reports lead nowhere when names hold characters URLs reserve
C17|9a4c05a|the HTML reports held unbalanced and misnested markup
C17|caa5b41|labels and values in HTML reports were not escaped
C17|c5adc60|merged constant pools mentioned indexes twice or not at all
C17|b54a625|JSON reports held NaN and Infinity, which are not JSON
C17|6436d9e|HTML reports left out constants which are zero
C17|e6a5d45|HTML reports left out annotations without elements
C17|f1037bc|links to copied style sheets and scripts did not resolve from sub-reports
C17|fcf8b04|the code of a line returned to later (as in loops) replaced what the line held before in the HTML report
C29|56bd68c|the entries of compared archives and the sections of compared manifests came in another order each run (hash randomisation)
C29|4a5f69b|classinfo --json listed provides and requires in another order each run (hash randomisation)
C29|f33edea|files of a distribution, or of a directory on one side only, came in the order they lie on disk
C18|979d44c|line breaks in keys or values (such as names of entries) were written as lines of their own, so that other sections and attributes were read back; they are refused
""".splitlines()]
KNOWN = []

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
with open(out, "w") as f:
    for p, c, w in FIXED:
        f.write(json.dumps({"status": "fixed", "property": p, "commit": c, "what": w,
                            "line": "fixed: property=%s %s %s" % (p, c, w)}) + "\n")
    for k in KNOWN:
        f.write(json.dumps(dict({"status": "known"}, **k)) + "\n")
