#!/usr/bin/env python3
"""Generates properties.jsonl (kept as the single place where the property texts are edited)."""
import json,sys,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

# ---------------------------------------------------------------- output safety
p("W01","The input wad is only overwritten after the complete result is on disk",
 "While a wad is being processed its file is opened for reading only; it may be opened for writing (truncated, replaced, removed) only when the user named no output file, and only after every lump and then the final directory have been written to the temporary file and that file was closed without error. Nothing but the output file, that temporary file, the reject report and the explicitly requested debug/profile files is ever created, written or deleted.",
 ["inputs","fault_sequences","configurations"],"every run of the program, whatever the options, the wad and the I/O errors met",
 "The unit tests never run the main flow nor touch a file; a test can only sample a few option/wad/fault combinations.",
 ["vigilantbsp.go","filecontrol.go"],
 [("input opened read-only","filecontrol.go:OpenInputFile"),("replacement of the input","filecontrol.go:tempFileReplacesInput"),("order of close and replace","filecontrol.go:Success"),("main flow","vigilantbsp.go:main")],
 ["the set of files opened for writing or removed, and when"])
p("W02","An output file that is the input file is refused before it is opened",
 "When the named output already exists and is the same file as the input (same path, hard link or symlink), the program stops with a non-zero status before opening the output, so the input is left untouched.",
 ["inputs","configurations"],"every pair of input and output names",
 "Needs file-system aliasing set-ups the tests do not have, and no test runs main.",
 ["vigilantbsp.go"],[("os.SameFile check before OpenOutputFile","vigilantbsp.go:main")],["exit status; input bytes"])
p("W03","A failed read, write or close never ends in a success report",
 "If reading a lump from the input wad, or writing the header, a lump or the directory, seeking in or closing the output, or copying the temporary over the input fails, the run does not report the wad as successfully written, and a failure before the replacement step leaves the input untouched.",
 ["fault_sequences","inputs"],"every I/O call on the input, output or temporary file failing, alone or together",
 "Tests inject no I/O faults; every single call site must be right.",
 ["vigilantbsp.go","lumpwrite.go","writebus.go","level.go","udmf_level.go","filecontrol.go"],
 [("lump writers","lumpwrite.go"),("bus shutdown","writebus.go:Shutdown"),("lump copies","vigilantbsp.go:main, level.go:DoLevel, udmf_level.go:DoLevel"),("final close and replace","filecontrol.go:Success")],
 ["'successfully written' message; content of the input file"])
p("W04","A failed run does not leave its temporary file behind",
 "Once the temporary output file exists, every way in which the main flow stops the program because of an error it detects first deletes that file, unless the input has already begun to be overwritten from it. The temporary file is not deleted when overwriting the input from it failed, because it is then the only complete copy.",
 ["fault_sequences","crash_points"],"every error exit reachable on the main goroutine after the temporary file was created",
 "Tests never create the temporary file; error exits need injected faults.",
 ["vigilantbsp.go","filecontrol.go","wad.go"],[("deferred Shutdown","vigilantbsp.go:main"),("Shutdown","filecontrol.go:Shutdown"),("tempFileReplacesInput","filecontrol.go")],
 ["directory of the input wad after the run"])
p("W05","Unusable input is rejected before any output is created",
 "If the input wad cannot be opened or its header or directory cannot be read, if it holds no level that can be rebuilt, or if the RMB options file cannot be read or has a syntax error, the program stops before it creates, truncates or opens any output or temporary file.",
 ["inputs","configurations"],"every input wad and RMB options file",
 "Tests exercise the RMB parser on a few texts but never the decision to stop.",
 ["vigilantbsp.go","filecontrol.go","wad.go","rmbparse.go"],[("checks before OpenOutputFile","vigilantbsp.go:main"),("LoadAssociatedRMB","filecontrol.go"),("TryReadWadDirectory","wad.go")],
 ["no output file on failure"])
p("W06","Every directory entry describes exactly the bytes written for its lump",
 "Whenever the data of a lump is written to the output, the directory entry of that lump gets as offset the output position at which its first byte was written and as size the number of bytes written for it, and the output position used for the next lump advances by exactly that number.",
 ["inputs","schedules","histories"],"every lump of every kind in every order of arrival",
 "Tests write no wad; an offset error needs a particular lump kind or order to show.",
 ["lumpwrite.go","writebus.go"],[("WriteSliceLump, ConvertAndWriteGenericLump, ConvertAndWriteDeepNodes","lumpwrite.go"),("dispatch","writebus.go:WriteBusLoop")],
 ["directory of the output wad"])
p("W07","The header locates the directory that is actually written",
 "The header written at the start of the output holds the position at which the directory is finally written and the number of entries of that same directory, the space reserved in between is exactly what was reserved for zero-filled reject data and that directory, and lump data starts right behind it.",
 ["inputs","configurations"],"every wad and option combination",
 "Only an end-to-end run with unusual header sizes would show a mismatch; tests have none.",
 ["vigilantbsp.go"],[("layout computation and directory write","vigilantbsp.go:main")],["header and directory of the output wad"])
p("W08","Lump data is written by one writer only, in request order",
 "From the first lump to the end of the directory, only one goroutine at a time writes to the output file: lump data, directory entries of lumps being written and the write position are only touched by the writer that serves the lump queue, and the directory is written only after that writer has finished all requests.",
 ["schedules"],"every interleaving of the main flow with the builders",
 "Interleavings are not enumerated by tests; no test runs the writer.",
 ["writebus.go","lumpwrite.go","vigilantbsp.go"],[("WriteBus goroutine","writebus.go:WriteBusLoop"),("Shutdown handshake","writebus.go:Shutdown"),("directory write after shutdown","vigilantbsp.go:main")],
 ["output bytes"])
p("W09","Lumps that are not rebuilt are copied byte for byte to their own entry",
 "Each lump the program copies instead of rebuilding is read in full from the offset and size recorded for it in the directory and is delivered unchanged under the same directory entry; no scheduled lump is skipped unless it is empty or was dropped on the user's request to eject.",
 ["inputs","configurations"],"every lump of every input wad",
 "No test processes a wad with arbitrary lumps.",
 ["vigilantbsp.go","level.go","udmf_level.go","wad.go"],[("copy loop","vigilantbsp.go:main"),("copyLump branch","level.go:DoLevel"),("UDMF copies","udmf_level.go:DoLevel")],
 ["bytes of copied lumps"])
p("W10","Wad structures are read and written little-endian with exact record layouts",
 "Every multi-byte value read from or written to a wad - header, directory, map lumps, node formats, blockmap, reject sources - is little-endian, and each record type has the exact field widths and field order its format prescribes.",
 ["inputs"],"every value of every record",
 "Tests never compare a written lump with the format; a swapped field of equal width compiles silently.",
 ["gamespec.go","zdefs.go","zstream.go","lumpwrite.go","bblocks.go","level.go","wad.go"],[("record types","gamespec.go"),("byte order argument of encoders/decoders","all encoding/binary uses")],
 ["output bytes"])
p("W11","Each zero-filled REJECT lump gets its own registered slot of the right size",
 "With zero-filled rejects, the directory entry of every REJECT lump gets the size computed for that very level and a private offset inside the zero area reserved at the start of the file, each slot is registered before it is used, and the reserved area covers every slot.",
 ["inputs","histories"],"every set of levels in a wad, including levels with lumps added or removed",
 "Needs multi-level wads with missing or duplicate lumps run end to end.",
 ["wad.go","trollgen.go","level.go","vigilantbsp.go"],[("AddSize/Compile/PopOffset","trollgen.go"),("registration","wad.go:LoadWadDirectory"),("use","level.go:DoLevel")],
 ["REJECT entries of the output directory"])
p("W12","Every lump kept in the output has its own directory entry",
 "When the output directory is laid out, each lump that is kept - whether rebuilt, added or merely copied - is assigned the index of its own entry, so no lump's data is ever delivered under another lump's entry; level lumps the layout does not know are not silently attached to an unrelated entry.",
 ["inputs"],"every input directory, including unknown or duplicate lumps inside levels",
 "No test lays out a directory.",
 ["wad.go"],[("UpdateDirectoryAndSchedule","wad.go")],["output directory"])
# ---------------------------------------------------------------- level pipeline
p("L01","Each rebuilt lump is delivered exactly once, in every node format",
 "For every level that is rebuilt, LINEDEFS, VERTEXES, SEGS, SSECTORS and NODES are each delivered exactly once when nodes are rebuilt - whatever node format the result has - as are BLOCKMAP and REJECT when those are rebuilt, with or without deterministic mode.",
 ["inputs","schedules","configurations"],"every level, option set and order in which builders finish",
 "The tests do not run the level pipeline.",
 ["level.go"],[("WaitForAndWriteData","level.go"),("WriteNodes","level.go")],["lumps of the output wad"])
p("L02","Every builder delivers its result exactly once, so a level always completes",
 "Each of the node, reject and blockmap builders started for a level sends its final result exactly once on every path that does not abort the program, after which it sends nothing more; and the level waits for the result of every builder it started.",
 ["schedules","inputs"],"every builder run and interleaving",
 "A missing reply shows up as a hang only on the input that takes the faulty path; no test starts the builders.",
 ["nodegen.go","znodegen.go","multiformat_tree.go","multitree_plain.go","reject.go","blockmapgen.go","level.go"],[("NodesGenerator replies","nodegen.go"),("RejectGenerator replies","reject.go"),("BlockmapGenerator replies","blockmapgen.go"),("collection","level.go:WaitForAndWriteData")],
 ["termination; lumps delivered"])
p("L03","Users of the shared solid-line blockmap follow its request protocol",
 "For every level, the shared internal blockmap of solid lines is told exactly once by each of its two users whether it is needed, is fetched only by a user that asked for it, and is released by each user that asked for it only after its last use, on every path on which the level is built to completion.",
 ["schedules","inputs"],"every level and every combination of rebuilt parts",
 "A protocol slip shows as a deadlock or leak only on particular paths; no test runs them.",
 ["solidblocks.go","nodegen.go","reject.go","level.go"],[("SolidBlocks_Control","solidblocks.go"),("requests","nodegen.go:NodesGenerator, reject.go:RejectWork.main, level.go:DoLevel")],
 ["termination"])
p("L04","Builders start only once everything they need has been read",
 "A builder for a level is started only after all the lumps it reads have been loaded - lines and vertices for all of them, also sidedefs and sectors for reject and nodes, also things for nodes of Hexen-format maps - each at most once per level, and the loaded data handed to it is not reloaded or replaced afterwards.",
 ["inputs","configurations"],"every order of lumps inside a level and every option set",
 "Needs levels with unusual lump orders and a race to show.",
 ["level.go"],[("start conditions","level.go:DoLevel")],["output lumps"])
p("L05","A level's result does not depend on levels processed before it",
 "What is produced for one level depends only on that level, the options and the files referenced, not on other levels processed earlier in the same run: options do not change once processing starts, no package-level state carries data from one level to the next, and every per-level field of a reused level processor is reset before use. A wad opened for the RMB options of one level serves another level only if it is the very file named for that one.",
 ["histories","configurations"],"every sequence of levels in a wad",
 "Needs multi-level wads processed in different orders; tests process none.",
 ["level.go","config.go","cmdparser.go","vigilantbsp.go"],[("reinitialisation at start of DoLevel","level.go"),("config written by Configure only","config.go, cmdparser.go")],
 ["output lumps"])
p("L06","Deterministic mode makes the result independent of timing",
 "With deterministic mode on, no order of goroutine completion, map iteration order, random number, clock value, environment or memory address influences the bytes written: results of parallel workers are combined by a rule that does not depend on their order of arrival and lumps are written in a fixed order.",
 ["schedules"],"every schedule and every number of processors",
 "Timing cannot be sampled exhaustively.",
 ["level.go","blockmapgen.go","multitree_plain.go"],[("fixed write order","level.go:WaitForAndWriteData"),("tie break by tree id","multitree_plain.go:MTP_IsBSPTreeBetter"),("tie break by offset","blockmapgen.go:IsBlockmapBetter")],
 ["output bytes of repeated runs"])
p("L07","Log output of concurrent stages is serialised",
 "Every access to the shared state of the program's log (its output stream and buffered slots) happens while the log's lock is held, the lock is released on every path and never taken again by a goroutine that already holds it. The segment dump requested for debugging, which only a build of a single tree fills, is excepted.",
 ["schedules"],"every interleaving of concurrent stages",
 "Races need particular interleavings.",
 ["mylogger.go"],[("mutex discipline","mylogger.go")],["log output; no deadlock"])
# ---------------------------------------------------------------- nodes
p("N01","Trees built in parallel share no mutable state",
 "When several trees are built concurrently from the same level, each worker gets its own copy of every piece of working data that tree building modifies; whatever is shared between workers is only read while they run.",
 ["schedules"],"every level and number of workers",
 "A race would corrupt a tree only under particular interleavings.",
 ["node_intro.go","multitree_plain.go","node_vmap.go","segalias.go","superblocks.go","universal_interfaces.go"],[("GetInitialStateClone","node_intro.go"),("MultiTree_Clone","multitree_plain.go"),("Clone methods","node_vmap.go, segalias.go, universal_interfaces.go")],
 ["nodes of multi-tree builds"])
p("N02","Building nodes does not disturb the map data other builders read",
 "The node builder, which renumbers vertices and edits lines, works on its own copy of the linedefs and vertices: it detaches that copy before its first modification, and the reject and blockmap builders never modify lines, vertices, sidedefs or sectors.",
 ["schedules","inputs"],"every level, every interleaving of the builders",
 "Corruption depends on which builder runs first.",
 ["nodegen.go","universal_interfaces.go","level.go"],[("UnshareData before edits","nodegen.go:NodesGenerator"),("copy semantics","universal_interfaces.go")],
 ["BLOCKMAP and REJECT lumps"])
p("N03","Node data that does not fit its format is never written",
 "Before node data is delivered in a format with 16-bit indices, the number of vertices, of subsectors and of segs is checked against the format's limits, and when a limit is exceeded the data is upgraded to the extended format the user allowed or the NODES, SEGS and SSECTORS lumps are emptied; data that failed the check is never delivered.",
 ["inputs","configurations"],"every level and every node format option",
 "Overflow needs enormous maps that tests lack.",
 ["nodegen.go","node_outro.go","multiformat_tree.go","multitree_plain.go"],[("limit checks","nodegen.go:NodesGenerator"),("emptyNodesLumps, tooManySegsCantFix","node_outro.go"),("isUnsignedOverflow fallback","multiformat_tree.go, multitree_plain.go")],
 ["NODES/SEGS/SSECTORS lumps"])
p("N04","Extended node streams have the prescribed layout and matching counts",
 "A ZDoom extended or compressed NODES lump starts with the signature of the kind selected, followed by vertex header and vertices, then subsectors, segs and nodes in that order, each preceded by the 32-bit count of exactly the records that follow, and a compressed stream is finalised exactly once before it is used.",
 ["inputs"],"every level in extended or compressed format",
 "No test decodes the stream.",
 ["node_outro.go","zstream.go","zdefs.go","znodegen.go"],[("stream writer","zdefs.go, znodegen.go"),("ZStream","zstream.go")],["NODES lump bytes"])
p("N05","Every command line option does what is documented for it",
 "Each documented spelling of a build option sets exactly the configuration values documented for it and no others, and each value an option can take is acted on by the code that implements it: the partitioning method, secondary criterion, node format, multi-tree mode, culling, reject mode, self-reference mode, blockmap offset mode and the on/off switches all select the implementation they name, no accepted value runs into an internal 'not implemented' abort, and no two values of an option behave the same.",
 ["configurations"],"every documented spelling and every accepted option value",
 "Tests run one partitioner at most and no option parsing at all.",
 ["cmdparser.go","config.go","node_intro.go","nodegen.go","level.go","reject.go","blockmapgen.go","multitree_plain.go"],[("dispatchers","node_intro.go, level.go, blockmapgen.go"),("option parser","cmdparser.go")],
 ["behaviour of each option"])
p("N06","Node records are built, converted and renumbered field by field without mixup",
 "Whenever a node, subsector, seg or vertex record is built, converted to another format or renumbered, every field gets the value meant for it: nothing is swapped between left and right, start and end or minimum and maximum; a child that is a subsector keeps the mark that says so, translated when the format changes; and a parent refers to each child by the very index at which that child was stored.",
 ["inputs","configurations"],"every level, tree and node format",
 "Tests build a few tiny trees and never decode the records of a finished lump.",
 ["nodegen.go","znodegen.go","node_outro.go","node_rearrange.go","stknode.go","multiformat_tree.go","multitree_plain.go"],
 [("record building","nodegen.go:CreateNode, stknode.go:StkCreateNode"),("format upgrade","nodegen.go:upgradeToDeep"),("reversal and renumbering","node_outro.go, node_rearrange.go")],
 ["NODES/SEGS/SSECTORS lumps"])
# ---------------------------------------------------------------- RMB / reject
p("R01","An RMB file with any reported error is rejected as a whole",
 "Whenever parsing the RMB options file reports an error for a line or for the file, parsing yields failure for the whole file and the program aborts instead of using any of its options; a line that fails to parse never contributes a command, and no line alters a command that an earlier line contributed other than the one its own syntax is defined to act upon.",
 ["inputs"],"every RMB file text",
 "The existing tests sample some faulty lines; the rule must hold for each error branch.",
 ["rmbparse.go","filecontrol.go"],[("LoadRMB","rmbparse.go"),("parse callbacks","rmbparse.go"),("LoadAssociatedRMB","filecontrol.go")],
 ["exit status"])
p("R02","The symmetric reject shortcut is never used with asymmetric options",
 "The reject builder that assumes visibility is mutual is used only when none of the options in effect for the map - its own or the global ones - can make visibility one-directional (BLIND, SAFE, INCLUDE, EXCLUDE, LEFT, RIGHT, ONE and their variants, or a sourced reject mixed with other options); and where sectors are grouped and an option that needs groups taken together (DISTANCE, LINE) is in effect, only the general builder is used.",
 ["inputs","configurations"],"every combination of RMB options",
 "Combinations of options are unbounded; tests do not run reject building.",
 ["reject.go","rejectRMB.go"],[("CompatibleWithSymmetry","rejectRMB.go"),("selection","reject.go:RejectGenerator")],["REJECT lump"])
p("R03","RMB options are applied in the documented priority order",
 "For every map, the effects of RMB options on the finished visibility table are applied in the fixed order BLIND/SAFE, then VORTEX, then INCLUDE, then EXCLUDE (later ones overriding earlier ones), only after line-of-sight computation, with reports generated last; within each kind global options are applied before the map's own, whatever its own are; visibility is passed on between VORTEX options only after all of them were applied; and where a map has several LENGTH or DISTANCE options the last of its own counts, or else the last global one.",
 ["inputs"],"every RMB file",
 "Order matters only for conflicting options, which no test builds a reject for.",
 ["rejectRMB.go","reject.go"],[("ProcessOptionsRMB","rejectRMB.go"),("call after LOS","reject.go:main")],["REJECT lump"])
p("R04","Sector and line numbers from RMB files are range-checked before use",
 "A sector or linedef number taken from an RMB file is compared against both ends of the valid range of the map before it is used to index any table; numbers out of range are reported or ignored, never used.",
 ["inputs"],"every RMB file and map",
 "Tests do not run reject building with hostile numbers.",
 ["rejectRMB.go"],[("rmbCheckSectorInRange and callers","rejectRMB.go")],["no crash; REJECT lump"])
p("R05","A sourced REJECT is used only if its size fits the map and it was fully read",
 "When an RMB option asks to reuse an existing REJECT lump, its bytes are used only after its size was found equal to the size this map's sector count requires and the whole lump was read without error; in every other case the request is declined, and each request is answered exactly once.",
 ["inputs","fault_sequences"],"every source wad, map and I/O fault",
 "No test sources a reject.",
 ["level.go","reject.go"],[("handleRejectNagging","level.go"),("rejectNOPROCESSLoad","reject.go")],["REJECT lump; termination"])
p("R06","Every implemented RMB option has an effect on reject building",
 "Every RMB option that is accepted without a 'not implemented' warning is looked at by the code that builds the reject (or selects the map frame or source it applies to), and an option marked as not implemented produces the warning; global options remain in effect for maps with options of their own. INCLUDE and VORTEX make the sectors named visible, EXCLUDE hides the second list from the first, BLIND limits what a sector sees and SAFE what sees it, with the limits given and the prefixes BAND and INVERT obeyed; the sector distances these options need are always prepared.",
 ["inputs"],"every RMB option",
 "Tests check parsing, not effects.",
 ["rmbparse.go","rejectRMB.go","rmbunit.go"],[("parse table","rmbparse.go"),("consumers","rejectRMB.go")],["REJECT lump; warnings"])
# ---------------------------------------------------------------- blockmap
p("B01","A BLOCKMAP with out-of-range offsets is never delivered",
 "Every block offset stored in a BLOCKMAP lump is checked against the 16-bit limit before it is narrowed to 16 bits, and a BLOCKMAP in which any offset exceeded the limit is replaced by an empty lump before it is delivered, whatever offset search mode or compression is used.",
 ["inputs","configurations"],"every level and blockmap option set",
 "Needs huge maps that tests lack.",
 ["bblocks.go","blockmapgen.go"],[("LimitCheck","bblocks.go"),("DeleteIfTooBig","blockmapgen.go")],["BLOCKMAP lump"])
# ---------------------------------------------------------------- not applicable
p("X01","The BSP tree partitions the map correctly",
 "Every subsector of the nodes built is convex and every point of the map is assigned by the tree to the subsector that contains it, up to the rounding of the node format.",
 ["inputs"],"every map","Geometric property of computed numbers over all maps.",
 ["nodegen.go","picknode.go"],[("node creation","nodegen.go")])
p("X02","REJECT never hides a pair of sectors that can see each other",
 "Without RMB options, two sectors between which a line of sight exists are never marked as unable to see each other.",
 ["inputs"],"every map","Geometric property of computed numbers over all maps.",
 ["reject.go","rejectLOS.go","rejectDFS.go"],[("LOS computation","rejectLOS.go")])
p("X03","BLOCKMAP lists every line in every block it touches",
 "For every block of the map grid the blocklist contains every non-ignored linedef that passes through that block.",
 ["inputs"],"every map","Geometric property of computed numbers over all maps.",
 ["bblocks.go"],[("CreateBlockmap","bblocks.go")])
p("X04","Blockmap compression preserves every blocklist",
 "Merging identical blocklists and non-aggressive subset compression leave the set of lines found through each block's offset exactly as in the uncompressed blockmap.",
 ["inputs"],"every map","Round-trip equality of computed data over all maps.",
 ["bblocks.go"],[("GetBytes, GetBytesArcane","bblocks.go")])
p("X05","The chosen tree is the best of those tried",
 "In multi-tree mode the tree delivered is minimal, under the documented criteria, among all trees built.",
 ["inputs","schedules"],"every map","Optimality over run-time values.",
 ["multitree_plain.go"],[("IsBSPTreeBetter","multitree_plain.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
