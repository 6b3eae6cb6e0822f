#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

J = "javatools/"
p("C01", "The binary reader is an exact cursor over its data",
  "Reading through an unpacker is a cursor over the data: every successful read, format unpack or counted array returns exactly the next bytes, big-endian decoded, and advances by exactly that many, so nothing is skipped, repeated or invented. A request for more bytes than remain always raises UnpackException reporting how many bytes were wanted and how many were present, and consumes nothing from a buffer. Byte buffers (including memoryviews and offsets) and streams give the same results for the same operations, and after close every read fails and a stream's underlying object is closed.",
  ["inputs", "histories"], "every byte content and every sequence of unpack/read/array/objects/close operations, over both kinds of source",
  "tests/pack.py runs a few fixed sequences on one small buffer; agreement of the two sources and short-data behaviour must hold for any operation history",
  [J+"pack.py"], [("BufferUnpacker/StreamUnpacker length checks before consumption", J+"pack.py")],
  [("offset", "cursor position", J+"pack.py BufferUnpacker.offset"), ("data", "released on close", J+"pack.py")])

p("C02", "Constant pool entries decode and dereference exactly",
  "For every well-formed class file, each constant pool entry reads back with its own tag and exactly the value the file encodes (modified UTF-8 text including NUL, supplementary and long strings; signed 32/64-bit integers; floats and doubles; symbolic references followed to the names and descriptors they denote). Long and double entries occupy two indices, so no later index shifts, and the unusable index holds nothing. Rendering a constant never fails for any kind of entry the decoder accepts and shows the dereferenced value.",
  ["inputs"], "all constant pools over every tag, any order, any reference structure, boundary numbers and any text",
  "the tests load a handful of compiled classes, which exercise few tags, no wide-entry orderings and no boundary values",
  [J+"__init__.py"], [("JavaConstantPool.unpack/get_const/deref_const/pretty_deref_const", J+"__init__.py"), ("modified UTF-8 decoding", J+"__init__.py")],
  [("consts", "(tag, raw value) per index", J+"__init__.py JavaConstantPool.consts")])

p("C03", "Class structure decodes exactly and malformed files are rejected",
  "For every well-formed class file, the decoded class reports exactly the file's version, access flags, this/super/interfaces, fields, methods, and the content of every supported attribute (code, exception tables, line and local variable tables, constant values, exceptions, signatures, source file, inner classes, enclosing method, annotations), in file order, whatever unknown attributes are interleaved, and from a bytes buffer, a stream or a file alike. Any proper prefix of a class file, any wrong magic number and any attribute whose declared length runs past the data is rejected with an exception rather than returned as a class.",
  ["inputs"], "all well-formed class files the format permits, and every truncation point of each",
  "tests decode a few javac outputs; no test truncates a file or builds attribute combinations javac does not emit",
  [J+"__init__.py", J+"pack.py"], [("JavaClassInfo/JavaMemberInfo/JavaCodeInfo/JavaAttributes unpack", J+"__init__.py"), ("unpack_class magic and stream handling", J+"__init__.py")],
  [("attributes", "name to raw content map", J+"__init__.py JavaAttributes"), ("members", "fields and methods", J+"__init__.py JavaMemberInfo")])

p("C04", "Disassembly partitions the bytecode into exactly the JVM instructions",
  "For every valid code array the disassembly lists exactly the JVM's instructions in order: offsets start at zero, each instruction begins where the previous one ends and the last ends at the code length, for every opcode including tableswitch/lookupswitch at every alignment and wide forms. Each mnemonic and each operand (signed or unsigned as the JVM defines it) is the one encoded. Line-number and exception-handler lookups for any offset agree with the code's tables.",
  ["inputs"], "every opcode, every operand value, every switch alignment and size, any instruction sequence",
  "no test checks disassembly offsets or operands; compiled samples reach few of the 201 opcodes and alignments",
  [J+"opcodes.py", J+"__init__.py"], [("disassemble and per-opcode operand formats", J+"opcodes.py"), ("get_line_for_offset, exception info", J+"__init__.py")])

p("C05", "Descriptors, signatures and member identity are rendered faithfully",
  "Every valid type or method descriptor is turned into the Java type it denotes (primitives, any array depth, any class name, any parameter count), and distinct descriptors give distinct renderings. Members, argument types, return types, thrown exceptions, access flags and pretty descriptors shown for a class are those the class file declares; method lookup by name or identifier, field lookup, constructor/static-initialiser recognition and bridge detection select exactly the matching members.",
  ["inputs"], "all field and method descriptors and all member sets a class can declare",
  "tests compare a few pretty strings; injectivity and lookup exactness quantify over all descriptors and member sets",
  [J+"__init__.py"], [("descriptor parsing and pretty printing", J+"__init__.py"), ("get_method/get_field_by_name/get_method_bridges", J+"__init__.py")])

p("C06", "A class's provides and requires are complete and disjoint",
  "The symbols a class provides are exactly its own name and its public members (all its members, of every visibility, when private ones are asked for); the symbols it requires are exactly the classes, fields and methods its constant pool refers to that it does not itself provide, an array class or a member of one standing for the array's element class. No symbol is lost because of array depth, index order or duplicate mention, none is invented, and ignore patterns remove exactly the matching symbols.",
  ["inputs"], "all classes over any mix of references, arrays, member visibilities and ignore patterns",
  "one test asserts a fixed set for one sample class",
  [J+"__init__.py", J+"dirutils.py"], [("get_provides/get_requires", J+"__init__.py"), ("fnmatches", J+"dirutils.py")])

p("C07", "Jar and distribution provides/requires aggregate their classes exactly",
  "A jar's (or distribution's) provided symbols are exactly those some contained class publicly provides, and its required symbols exactly those some contained class requires and none provides (publicly, or, for the classes of one jar and for those beside the jars, not publicly either); each symbol is attributed to exactly the classes, or archives with their classes, that provide or require it, once each. The result is the same for a zipped or exploded archive or distribution and for any entry order, through the interface and the commands, and ignore patterns remove exactly the matching symbols.",
  ["inputs", "configurations"], "all sets of classes distributed over archives and directories in any order",
  "tests look at one fixed sample distribution",
  [J+"jarinfo.py", J+"distinfo.py", J+"ziputils.py"], [("JarInfo._collect_requires_provides", J+"jarinfo.py"), ("DistInfo._collect_requires_provides", J+"distinfo.py")],
  [("_requires/_provides", "symbol to providers/requirers", J+"jarinfo.py, "+J+"distinfo.py")])

p("C08", "Class comparison reports nothing when nothing meaningful differs",
  "Comparing any well-formed class with itself, or with a copy whose constant pool has been reordered, padded with unused entries or duplicated and whose indices are renumbered consistently, reports no change in any facet except the constant pool itself, and reordering the declarations of fields, methods or interfaces reports no added or removed member. With the constant pool ignored (as the class comparison options allow), the verdict of such a comparison is no un-ignored change.",
  ["inputs"], "all classes and all consistent renumberings of their constant pools",
  "tests compare two fixed pairs of sample classes; reflexivity and renumbering invariance hold over all classes",
  [J+"classdiff.py", J+"__init__.py", J+"opcodes.py"], [("JavaClassChange and its facet changes", J+"classdiff.py"), ("CodeConstantsChange dereferencing", J+"classdiff.py")])

p("C09", "Class comparison reports every difference in the facet it lies in",
  "If two classes differ in name, super class, interfaces, access flags, platform version, generic signature, constants, class annotations, or in any member's presence, type, access flags, constant value, exceptions, annotations, deprecation, code instructions, operands, exception table, stack or locals limits or line numbers, the comparison is a change, and the facet that differs is marked changed while facets that do not differ are not. Added and removed members are reported as exactly that, each once and on the right side, and swapping the two classes swaps additions and removals.",
  ["inputs"], "every single-facet and multi-facet difference between two classes, in both directions",
  "tests cover two fixed pairs whose differences were chosen once",
  [J+"classdiff.py"], [("facet Change classes and ClassMembersChange matching", J+"classdiff.py")],
  [("changes", "child change list", J+"change.py SuperChange.changes")])

p("C10", "Ignore options mask exactly what they name and decide the exit status",
  "For class comparison, every ignore option suppresses exactly the facets it names: a comparison is ignored exactly when it is a change and every changed facet is covered by an ignore option, adding ignore options never turns an ignored result into an un-ignored one, and no option changes what is detected. The command exits 0 exactly when there is no change or the whole change is ignored, and nonzero otherwise, with the same verdict in quiet, text and JSON output.",
  ["inputs", "configurations"], "all pairs of classes and all combinations of ignore options",
  "tests run a couple of option sets on one sample pair",
  [J+"classdiff.py", J+"change.py"], [("is_ignored per facet, options parsing", J+"classdiff.py"), ("SuperChange.is_ignored", J+"change.py")])

p("C11", "Change trees aggregate, squash and serialise consistently",
  "A composite change is a change exactly when some child is, and ignored exactly when it is a change and every changed child is ignored. Squashing a change keeps its verdict, ignored state, label, description, entry and whether it is an addition or removal, and the simplified form lists exactly the children that the show-ignored and show-unchanged settings admit, in order. Checking, collecting, simplifying or squashing again in any order never alters a verdict already reached.",
  ["inputs", "histories"], "all trees of changes and all orders of check, collect, simplify, squash and clear",
  "tests only run whole reports on fixed inputs",
  [J+"change.py"], [("SuperChange.check_impl/is_ignored/simplify, squash", J+"change.py")],
  [("changes/changed", "children and verdict", J+"change.py")])

p("C12", "Archive comparison partitions the entries exactly",
  "Comparing two archives lists every entry name present on either side exactly once (left only, right only, same or different; directory entries present on both sides carry no content and are not listed) with same exactly when the two entries hold identical bytes, whatever their sizes, timestamps, compression, order or checksum collisions, and whether each side is a zip file, a zip stream, or an exploded directory. Reading an entry of an exploded archive yields the same bytes as reading it from the zip.",
  ["inputs", "configurations"], "all pairs of archives, entry contents (including equal-CRC contents and sizes around the read-chunk boundary) and storage forms",
  "tests compare two fixed sample jars",
  [J+"ziputils.py", J+"dirutils.py"], [("compare/compare_zips and chunked content comparison", J+"ziputils.py"), ("ExplodedZipFile", J+"ziputils.py")])

p("C13", "Directory comparison partitions the files exactly",
  "Comparing two directory trees lists every file path present on either side exactly once (left only, right only, same or different) at every depth, with same exactly when both sides are files holding identical bytes, including a path that is a file on one side and a directory on the other, and regardless of sizes and timestamps. Copying a tree reproduces every file at every depth with identical bytes, and name-pattern matching accepts exactly the names its patterns denote.",
  ["inputs"], "all pairs of directory trees of any depth and content",
  "tests compare one sample pair of directories",
  [J+"dirutils.py"], [("compare/_compare traversal, copydir, fnmatches", J+"dirutils.py")])

p("C14", "Jar comparison classifies every entry and its exit status follows",
  "Comparing two jars reports every entry exactly once as added, removed, unchanged or changed, where class entries are compared as classes, the manifest as a manifest, signature files as signature data and everything else by bytes; the comparison is a change exactly when some entry is added, removed or differs in that sense (or one jar is a file and the other an exploded directory, which no option covers). The command exits 0 exactly when there is no change or everything that changed is covered by the given ignore options.",
  ["inputs", "configurations"], "all pairs of jars over all entry kinds and ignore options",
  "tests run a fixed pair of jars with few options",
  [J+"jardiff.py", J+"ziputils.py", J+"manifest.py"], [("JarContentsChange dispatch", J+"jardiff.py"), ("ManifestChange/ManifestSectionChange", J+"manifest.py")])

p("C15", "Distribution comparison classifies every file and its exit status follows",
  "Comparing two distribution directories reports every file exactly once as added, removed, unchanged or changed, comparing classes, jars and manifests by what they mean and text and all other content by its bytes; a file that differs in the way its kind is compared is never reported as unchanged and an identical file never as changed. The command exits 0 exactly when there is no change or everything that changed is covered by the given ignore options, and shallow mode still reports every differing file.",
  ["inputs", "configurations"], "all pairs of distribution trees over all file kinds and ignore options",
  "tests run a fixed sample pair with few options",
  [J+"distdiff.py", J+"dirutils.py"], [("DistReport.collect_impl dispatch by file pattern", J+"distdiff.py"), ("DistContentChange and subclasses", J+"distdiff.py")])

p("C16", "Parallel distribution comparison equals the sequential one",
  "For every number of worker processes and every scheduling of their work, the parallel distribution comparison ends with the same verdict, the same children, the same ignored state and the same exit status as the sequential one. Every entry is examined exactly once, no result is lost, duplicated or attached to another entry, and a worker that fails surfaces as an error instead of leaving the command waiting forever.",
  ["schedules", "inputs", "fault_sequences"], "every interleaving of parent and workers over the task and result queues, any worker count, and a failure in any task",
  "no test covers parallel mode under more than one schedule or with a failing task",
  [J+"distdiff.py"], [("DistReport/DistChange mp_check_impl with task and result queues", J+"distdiff.py")],
  [("tasks, results", "work and result queues with end markers", J+"distdiff.py"), ("changes", "merged results", J+"distdiff.py")],
  ["the task and result queue operations of parent and workers"])

p("C17", "Reports are complete, contained and consistent across formats",
  "Whatever the entry names being compared, every report file is written inside the report directory, different entries never share a report file, and every link resolves to a written file. The JSON, text and HTML reports and the exit status describe the same change tree: JSON and text show exactly the changes the show-ignored and show-unchanged options admit, HTML shows every change marked as changed, ignored or unchanged, with the same labels, verdicts, additions and removals; the JSON output is always parseable and the HTML well formed with every value escaped, and the exit status is 1 exactly when some change is not ignored.",
  ["inputs", "configurations"], "all comparison trees, entry names (including absolute and parent-relative ones), formats and display options",
  "tests only check that reports can be produced for a fixed pair",
  [J+"report.py", J+"jardiff.py", J+"distdiff.py", J+"classdiff.py"], [("Reporter.subreporter path building", J+"report.py"), ("JSON/Cheetah/text formats", J+"report.py")])

p("C18", "Manifests survive writing and reading back",
  "Any manifest (main section and any named sections with any attribute values, including empty, very long and non-ASCII ones) that is written and read back has exactly the same sections and values; what the format cannot hold (line breaks, names with colons or of more than 68 bytes) is refused, never written as something else. Every physical line written is at most 72 bytes excluding its terminator, and every valid manifest text, with any of the three line endings, folding points and section order, parses to the sections and values it denotes or is rejected as malformed, never silently altered.",
  ["inputs"], "all section sets, names, values, folding positions and line-ending styles",
  "tests parse and re-store a few fixed manifests",
  [J+"manifest.py"], [("parse_sections, ManifestSection.store/write_key_val, Manifest.store", J+"manifest.py")],
  [("sub_sections", "named sections", J+"manifest.py Manifest")])

p("C19", "Manifest checksums verify exactly the jar contents they were computed from",
  "A manifest created for any jar or directory under any set of digest algorithms holds, for every file entry and nothing else, the digest of that entry's bytes, and verifying it against the same content reports no errors. Verifying against other content reports exactly the entries of it whose bytes none of the manifest's digests for them matches (in strict mode also those the manifest has no digest for, in lenient mode not); as documented, entries that are no longer there are not reported. Verification never alters the manifest.",
  ["inputs"], "all jar contents and digest sets, and all later modifications of the contents",
  "tests verify two fixed jars",
  [J+"manifest.py"], [("Manifest.add_jar_entries/verify_jar_checksums", J+"manifest.py"), ("digest_chunks", J+"manifest.py")])

p("C20", "Signing a jar always yields a jar that verifies",
  "Any jar signed with a supported key (RSA, DSA or EC), digest and alias verifies with the matching certificate, including jars with many, long or non-ASCII entry names, directories, an existing manifest with extra attributes or sections, or an earlier signature, and signed again under the same or another name. Signing leaves every other entry's bytes unchanged and adds exactly the manifest, signature file and signature block, and the same jar signed by an independent standard implementation's rules verifies too.",
  ["inputs", "configurations"], "all jar contents, key types, digests, aliases and signing histories",
  "tests sign one or two fixed jars once",
  [J+"jarutil.py", J+"manifest.py", J+"crypto.py"], [("sign/verify", J+"jarutil.py"), ("SignatureManifest.digest_manifest", J+"manifest.py"), ("create_signature_block", J+"crypto.py")])

p("C21", "A signed jar altered in any covered way never verifies",
  "After any alteration of a signed jar that the signature covers (an entry's bytes, an entry added, the manifest's entries or digests, the signature file, the signature block, or a different certificate) verification fails, with the error that names what was broken: missing or malformed signature parts, a bad signature, a manifest checksum error or a jar checksum error. (As documented, entries removed from the jar are not noticed.) Combinations of alterations and alterations made consistently at several levels without the private key are still rejected.",
  ["inputs", "histories", "fault_sequences"], "every sequence of alterations of a signed jar by someone without the key",
  "tests try three fixed tampered jars",
  [J+"jarutil.py", J+"manifest.py", J+"crypto.py"], [("verify: signature block, manifest and jar checks", J+"jarutil.py"), ("verify_manifest/verify_manifest_entry_checksums", J+"manifest.py"), ("verify_signature_block", J+"crypto.py")])

p("C22", "A failed signing leaves the original jar intact",
  "If signing in place fails at any point (unreadable key or certificate, mismatching alias file, unwritable target, a failure while reading an entry, writing an output entry or replacing the file), the original jar still exists with its original bytes, and no partly written output is left in its place (only where nothing but the removal of temporary files fails may it be the complete signed jar already); at every moment in between, too, what has the target's name is the old or the complete new jar. When an output path is given the input jar is never modified.",
  ["crash_points", "fault_sequences"], "a failure at every step of signing, for in-place and separate output",
  "no test injects a failure during signing",
  [J+"jarutil.py"], [("sign: temporary file then move", J+"jarutil.py")])

p("C23", "Signer selection among several signatures is unambiguous",
  "In a jar carrying several signatures, the signature file and block paired for a signer are those with that signer's name, whatever the other names, their order, letter case, extensions or shared suffix letters; verification with one signer's certificate does not depend on the other signers' validity where several are present, as documented, and the signature related entries are recognised exactly by their standard names.",
  ["inputs"], "all sets of signature entry names and orders",
  "tests have a single signer, or one fixed multi-signed jar",
  [J+"jarutil.py", J+"manifest.py", J+"ziputils.py"], [("get_signature/keys_with_suffix/file name predicates", J+"manifest.py, "+J+"jarutil.py")])

p("C24", "Creating a jar stores exactly the given files",
  "A jar created from any set of files and directories holds exactly those files, and everything beneath those directories, under their given (normalised) names with their exact bytes, each once: never an unrelated file, nor the jar itself where it lies beneath a given directory. The manifest comes first; it is the one generated, whatever manifest is among the files, and names the main class when one is asked for. Nothing else in the filesystem is changed, and listing or extracting the created jar reproduces the same names and bytes.",
  ["inputs", "configurations"], "all sets of paths, nesting and current directories given to jar creation",
  "tests create a jar from one fixed directory",
  [J+"jarutil.py"], [("create_jar/cli_create_jar", J+"jarutil.py")])

p("C25", "Opened archives and temporary directories are always released",
  "Opening a jar or distribution, using any of its queries in any order and any number of times, and closing it, releases everything it opened: no temporary directory remains, no file descriptor is left open, and this holds also when a query raises because a file could not be opened or read at that moment. Repeated queries, also after a failure or after reopening, return the same answers as the first.",
  ["histories", "fault_sequences"], "all sequences of open, query, failing query, close and reopen",
  "tests open and close each object once on the success path",
  [J+"jarinfo.py", J+"distinfo.py", J+"ziputils.py", J+"distdiff.py", J+"jardiff.py"], [("JarInfo.close, DistInfo.close, context managers", J+"jarinfo.py, "+J+"distinfo.py")],
  [("tmpdir", "working copy of a zipped distribution", J+"distinfo.py"), ("zipfile", "lazily opened archive", J+"jarinfo.py")])

p("C26", "Manifest command line creates and queries manifests faithfully",
  "Creating a manifest from the command line for any jar or directory, with any combination of recursion, ignore patterns and digest options, lists exactly the files beneath the given path that are neither ignored nor signature related, under their relative names, with correct digests; the query command prints exactly the stored value, and verification through the command line gives the same verdict as the library.",
  ["inputs", "configurations"], "all directory trees, jars and option combinations",
  "no test runs the manifest command line",
  [J+"manifest.py"], [("cli_create/cli_query/cli_verify", J+"manifest.py"), ("directory_generator/file_generator", J+"manifest.py")])

p("C27", "Information commands report exactly what the class file and jar contain",
  "The class, jar and distribution information commands print exactly the members the visibility options admit (in text and JSON), with each requested part present exactly when requested and equal to what the file contains: in text header, constants, code, line numbers, locals, annotations, exceptions, provides, requires, manifest, contained classes and sizes; in JSON the parts it has (header, members, constants, provides, requires, sizes). They succeed for every valid input, including jars that are directories, have no manifest or have no content.",
  ["inputs", "configurations"], "all classes and jars and all combinations of display options",
  "tests only check that the option parser builds or compare a few fixed outputs",
  [J+"classinfo.py", J+"jarinfo.py", J+"distinfo.py"], [("cli_* functions of the three tools", J+"classinfo.py, "+J+"jarinfo.py, "+J+"distinfo.py")])

p("C28", "Commands never report success on input they could not use",
  "A command that needs input which is missing, empty, damaged, cut short or not of its kind (a class which is no class, an archive which is no archive or whose entries do not match their checksums, a manifest with malformed lines, at any depth: in a jar, or in a jar of a distribution; a name no manifest can hold, a key which is none, words which make no request) ends with a failing status or an error: it never passes over the part it cannot read, and a comparison never takes an unreadable part for equal to another, whatever is ignored and in whatever order or process the parts are worked on.",
  ["inputs", "faults"], "all inputs in which any of the parts a command needs is missing, malformed or damaged, and all options",
  "tests run the commands on well-formed input only; which parts are damaged in which way, beside which others, are cases no fixed list covers",
  [J+"classinfo.py", J+"classdiff.py", J+"jarinfo.py", J+"jardiff.py", J+"distinfo.py", J+"distdiff.py", J+"manifest.py", J+"ziputils.py"],
  [("main and cli functions of each command", J+"*.py"), ("compare_zips, collect_compare_into", J+"ziputils.py"), ("collect_by_typename", J+"jarinfo.py")])

p("C29", "The same request on the same input is always answered the same",
  "A command asked the same thing of the same input gives the same output, byte for byte, the same report files and the same status each time: the order and content of changes, members, symbols, entries and manifest sections, in text, JSON, pages and written manifests, do not vary with hash randomisation, with the order a directory is listed in, with what the process did before, or with the number of helper processes.",
  ["inputs", "configurations", "schedules"], "all inputs and options, in all processes, after all histories and for all schedules of helpers",
  "a test runs a command once in one process with one hash seed; what varies between runs is what it cannot see",
  [J+"ziputils.py", J+"jardiff.py", J+"distdiff.py", J+"dirutils.py", J+"manifest.py", J+"__init__.py", J+"jarinfo.py", J+"distinfo.py", J+"report.py"],
  [("compare_zips", J+"ziputils.py"), ("ManifestChange.collect_impl", J+"manifest.py"), ("JavaClassInfo.get_provides, get_requires", J+"__init__.py"), ("mp_check_impl", J+"distdiff.py")])

p("C30", "Commands change no file but those they are asked to write",
  "No command changes, creates or removes anything outside of the output it was asked for: inputs (archives, exploded jars, distributions, what links in them lead to), the working directory and everything else lie as before, with their contents, modes and times, whatever names the entries of archives bear, whether the command succeeds, fails on damaged input or is interrupted; what it keeps in the temporary directory meanwhile is gone when it ends by itself; and a success means that the output asked for was written.",
  ["inputs", "faults", "configurations"], "all inputs (with hostile entry names, links, damage), all options, and all points at which a run can fail or be interrupted",
  "tests look at what a command answers; that it changes nothing else is about all files it never should touch, at every point it may stop",
  [J+"distinfo.py", J+"jarinfo.py", J+"ziputils.py", J+"jarutil.py", J+"report.py", J+"manifest.py", J+"dirutils.py"],
  [("DistInfo._working_path, close", J+"distinfo.py"), ("sign, create_jar", J+"jarutil.py"), ("Reporter, ReportFormat.run", J+"report.py"), ("cli_create", J+"manifest.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P))
