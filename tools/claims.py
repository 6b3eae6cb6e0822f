NA = {}
NOTES = ("TLA+ specifications under spec/ are checked exhaustively with TLC at small constants and bound to the code "
         "by trace validation with the same TLC modules; see DESIGN.md. No hooks are needed in /repo.")
BASE = ("Within the stated bounds TLC explores the specification exhaustively; the code is judged only on the executions driven "
        "(scenarios enumerated by TLC plus seeded random ones), each compared with the specification by TLC. Trusts TLC, the JVM, CPython and the driver's projection. ")
t("C01", "TLA+ cursor state machine, TLC model checking + trace validation of the real readers", BASE)

t("C02", "TLA+ byte-level class file decoder (ClassFile.tla), exhaustive TLC model of a class under construction + trace validation of the real constant pool", BASE)
t("C03", "TLA+ byte-level class file decoder (ClassFile.tla), exhaustive TLC model of a class under construction + trace validation of the real decoder on whole, truncated and damaged files", BASE)
t("C04", "TLA+ instruction decoder (Disasm.tla) as a code cursor, exhaustive TLC check that it partitions the code + trace validation of the real disassembly", BASE)
t("C05", "TLA+ descriptor grammar (Descriptor.tla), exhaustive TLC check of reading back and injectivity + trace validation of the real renderings and lookups", BASE)
t("C06", "TLA+ model of provided/required symbols (Descriptor.tla, MC_ProvReq) checked exhaustively with TLC + trace validation of the real queries", BASE)
t("C08", "TLA+ model of class comparison (ClassDiff.tla) with layout-only writers, exhaustive TLC check + trace validation of real comparison trees", BASE)
t("C09", "TLA+ model of class comparison (ClassDiff.tla) in which every edit names its facets, exhaustive TLC check + trace validation of real comparison trees", BASE)
t("C10", "TLA+ model of class comparison and ignore options (ClassDiff.tla), exhaustive TLC check of masking and monotonicity + trace validation of real trees and exit statuses", BASE)
t("C11", "TLA+ state machine of change trees (ChangeTree.tla), exhaustive TLC check over operation histories + trace validation of real change trees", BASE)
t("C12", "TLA+ model of archive comparison (Compare.tla), exhaustive TLC check of the comparing walk + trace validation of real archives", BASE)
t("C13", "TLA+ model of directory comparison (Compare.tla), exhaustive TLC check of the comparing walk + trace validation of real trees, copies and patterns", BASE)
t("C18", "TLA+ model of manifest text (Manifest.tla): writer and reader state machines checked exhaustively with TLC + trace validation of real manifests", BASE)
t("C14", "TLA+ model of jar comparison (ArchiveDiff.tla composing Compare, ClassDiff and Manifest), exhaustive TLC check over edited jars and options + trace validation of real comparison trees and exit statuses", BASE)
t("C15", "TLA+ model of distribution comparison (ArchiveDiff.tla), exhaustive TLC check over edited distributions, options and shallow mode + trace validation of real comparison trees and exit statuses", BASE)
t("C16", "TLA+ model of the parent, the helpers and their queues (MpDist.tla), exhaustive TLC check of safety and liveness + trace validation of real runs under scheduled stand-ins and real processes", BASE)
t("C19", "TLA+ model of signed jars (JarSign.tla: digests, manifests and signature files over symbolic and real bytes), exhaustive TLC check + trace validation of created manifests and verification verdicts", BASE)
t("C20", "TLA+ model of signing (JarSign.tla), exhaustive TLC check that signing yields a verifying jar + trace validation of signing histories, with signatures judged by openssl", BASE)
t("C21", "TLA+ model of attackers altering signed jars (JarSign.tla, MC_JarSign), exhaustive TLC check over histories of moves + trace validation of the real verification after replayed and random alterations", BASE)
t("C23", "TLA+ model of signer selection (JarSign.tla), exhaustive TLC check + trace validation of the real verification of jars with several signers and odd names", BASE)
t("C22", "TLA+ model of replacing a file under faults (FileOps.tla, MC_Signing), exhaustive TLC check of every fault and crash + trace validation of the real signing's file operations with a fault injected at each of them", BASE)
t("C26", "TLA+ model of the manifest command (MC_MfCli over JarSign.tla), exhaustive TLC check of trees, patterns and digests down to the text + trace validation of the real command line", BASE)
t("C24", "TLA+ model of filling a jar with files (JarCreate.tla), exhaustive TLC check over arguments, directories and places of the jar + trace validation of jars made by the real code in scratch directories", BASE)
t("C07", "TLA+ model of collecting what jars and distributions provide and require (Aggregate.tla over Descriptor.tla), exhaustive TLC check over placements and visiting orders + trace validation of real jars and distributions, zipped and exploded, through interface and commands", BASE)
t("C25", "TLA+ model of what opened jars and distributions hold (Resources.tla), exhaustive TLC check over histories of uses, faults, closings and reopenings + trace validation of real histories with injected read and open failures, counting descriptors and directories", BASE)
t("C27", "TLA+ model of what the information commands tell (InfoText.tla: text and JSON for every option), exhaustive TLC check over all option combinations + trace validation of the real commands on classes, jars and distributions", BASE)
t("C28", "TLA+ model of commands working through input they may not be able to use (Unusable.tla), exhaustive TLC check over which part is damaged on which side + trace validation of the real commands on damaged, missing and mixed input", BASE)
t("C29", "TLA+ model of runs of a command as self-composition over orders nobody chose (Repeat.tla), exhaustive TLC check over listing orders, helper schedules and histories + trace validation of the real commands asked again in other processes", BASE)
t("C30", "TLA+ model of what a command may change of the files around it (Frame.tla: areas, unpacking, failing, being stopped), exhaustive TLC check + trace validation of file listings around the real commands", BASE)
t("C17", "TLA+ model of reports (Report.tla: documents, places, pages), exhaustive TLC check of places and forms + trace validation of the files and output of real report runs", BASE)
