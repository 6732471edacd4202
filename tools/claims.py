CLAIMS = {p: (TR, CONF) for p in "C01 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C21".split()}
CLAIMS["C22"] = ("TLA+ specification of descriptors, class names and sizes (Format.tla): TLC builds descriptors type by type (MC_Format.tla) and prints them, the real code renders them, TLC validates the renderings (TraceFormat.tla)",
                 "Exhaustive over the descriptors of the model (up to 1 argument, 2 dimensions quick; 2 arguments thorough), random descriptors, class names and sizes beyond.")
CLAIMS["C02"] = ("TLA+ specification of the on-disk id index (IndexStore.tla): TLC checks order, completeness and refusal exhaustively (MC_IndexStore.tla) and prints the put sequences, the real writer and reader run them, TLC validates the answers (TraceStore.tla)",
                 "Exhaustive over put sequences and batch sizes of the model, plus random long sequences with boundary keys and batch sizes.")
_RUNS = ("TLA+ specification of what a user sees of runs (Runs.tla) and of the index publishing protocol that refines it (Publish.tla, MC_Publish.tla): TLC prints the histories of runs, kills, faults and replaced dumps (MC_Runs.tla), "
         "the real program goes through them under an own ptrace tracer, TLC validates what was seen (TraceRuns.tla)")
_RUNN = "The protocol is checked exhaustively within MC_Publish's bounds; the real program is stopped, killed or failed at numbered file-system operations (%s). Process death is modelled, loss of the page cache (power failure) is not."
for _p, _t in dict(C16="every operation of the indexing run in the quick tier for one command, random ones for histories", C17="sampled interleavings at file-system operations", C18="every operation and error kind for some commands, sampled beyond",
                   C19="sampled sequences of runs and replaced dumps", C20="sampled; directory listings and dump bytes compared after each run").items():
    CLAIMS[_p] = (_RUNS, _RUNN % _t)
CLAIMS["C23"] = ("TLA+ specification of the terminal line progress is drawn on (Progress.tla) and of worker and reporter (MC_Progress.tla, with liveness): TLC prints when lines are drawn, real interactive runs are slowed down accordingly under the tracer, TLC validates what they write to standard error (TraceProgress.tla)",
                 "Exhaustive in the model; real runs sampled: dumps that are whole, cut, malformed, empty, or change while they are read, operations that take long or fail. The times of the reporter are only as fine as one second.")
CLAIMS["C24"] = ("TLA+ model of reader, bounded queue and consumer in which memory held is a state variable (Scale.tla, MC_Scale.tla; variants that keep what they were given or hand on late are refuted by TLC), TLC prints plans of dumps and schedules, the real reader goes through them with its heap measured, TLC validates what it held and what it delivered when (TraceScale.tla)",
                 "Exhaustive in the model; the real reader is measured on the printed plans and on virtual streams of up to some 90 GB. Memory is measured after garbage collection at points of the plan and for whole runs as peak resident size.")
CLAIMS["C25"] = ("TLA+ specification of the command line as a state machine over the arguments (Cli.tla): TLC checks that its outcome follows from the last of each option (MC_Cli.tla) and prints the argument lists, the real program runs them on two dumps, TLC validates what it did (TraceCli.tla)",
                 "Exhaustive in the model for lists of up to 2 items in all spellings (3 thorough); the real program runs a sample of these in the quick tier, all of them in the thorough one, and random longer lists.")
CLAIMS["C26"] = ("TLA+ specification of the layout of reports (Layout.tla) and of a table written in two passes (MC_Layout.tla; variants with wrong widths are refuted by TLC): TLC prints the tables, dumps with such classes are made, TLC validates the characters of the real reports (TraceLayout.tla)",
                 "Exhaustive in the model (2 rows quick, 3 thorough); real reports of a sample of its tables and of random dumps.")
CLAIMS["C27"] = ("TLA+ specification of HTML documents as a machine that reads tokens with a stack (Markup.tla): TLC checks that documents as the reports are, with all branches, are accepted, and refused with any tag missing or a wrong template (MC_Markup.tla); TLC reads the real reports token by token (TraceMarkup.tla)",
                 "Exhaustive in the model; real reports of random dumps with markup, empty and missing texts. Tokens are taken from the bytes with Python's HTML parser.")
NA = {}
