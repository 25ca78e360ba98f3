MAINNOTE="Covers every control-flow path of main() with all methods it calls inlined (DoLevel, Configure and the log are summarised by their effects); file-system calls may each succeed or fail. Sound up to: pointer aliasing is resolved by type and field, the OS behaves as the os package documents, panics of the runtime itself (out of memory, nil) are not modelled, the goroutine of the writer is only related to main by channel close/receive."
CHECKS.update({
 'W01':(FLOW+" of the input, output and temporary file over main()",MAINNOTE),
 'W02':(FLOW+" over main() up to the opening of the output",MAINNOTE),
 'W03':(FLOW+" of I/O failures over main()",MAINNOTE),
 'W04':(FLOW+" of the temporary file over every exit of main()",MAINNOTE),
 'W05':(FLOW+" over main() up to the opening of the output",MAINNOTE),
 'W06':(FLOW+" of output position and directory entries over the writer goroutine","Covers every path of the goroutine serving the lump queue, all write functions inlined, for requests of every kind main and the level code can send. Sound up to: file writes append at the current position, binary.Write writes binary.Size bytes on success, runtime panics are not modelled."),
 'W07':(FLOW+" with symbolic linear arithmetic on the write position",MAINNOTE),
 'W08':(FLOW+" of the writer's phase",MAINNOTE),
})
NA.update({
 'X01':"whether subsectors are convex and cover the map depends on floating-point and integer geometry of the input map; no sound static argument in reach bounds it",
 'X02':"line of sight is a geometric property of the input map computed by a search over lines; it cannot be decided from the source without executing or symbolically solving the geometry",
 'X03':"which blocks a line passes through depends on coordinate arithmetic over the input; no static rule in reach decides its correctness",
 'X04':"equality of blocklists before and after compression is a relation between run-time arrays computed by loops with hashing; not decidable by the syntactic and dataflow rules used here",
 'X05':"minimality over the trees tried is a relation over run-time scores",
})
LEVELNOTE="Covers every path of DoLevel (and the functions it waits in and delivers from), for each of the 24 combinations of rebuild switches, reject mode and level format, with the options assumed constant while a level is processed (L05). Sound up to: aliasing is resolved by type and field, runtime panics are not modelled, a builder's own behaviour is a separate rule."
CHECKS.update({
 'W09':(FLOW+" of each lump of a level over DoLevel, plus loop-exit and stride rules over the lumps of a level",LEVELNOTE),
 'W10':("interprocedural type and value lookup over SSA: every byte order handed around, every record type reaching encoding/binary compared with a table of format layouts, every lump read in DoLevel","Covers every call with a byte order and every call of encoding/binary in the program. Layouts are compared by field names, order and widths with a table transcribed from the format specifications; a record whose fields are renamed is compared by widths only."),
 'W11':(FLOW+" of zero-filled reject slots over DoLevel",LEVELNOTE),
 'L01':(FLOW+" of result delivery over WaitForAndWriteData, WriteNodes and DoLevel",LEVELNOTE),
 'L04':(FLOW+" of loaded lumps and builder starts over DoLevel",LEVELNOTE),
 'N04':(FLOW+" of the items written to a node stream, over every function that builds one and the stream's own methods","Covers all paths of both node generators' stream builders. Sound up to: what the counted slices contain is not checked, only that the count written is the length of the slice written next."),
})

CHECKS.update({
 'L02':(FLOW+" of replies over every goroutine started for a level, with sends summarised through callees, plus a rule that every started builder is awaited","Covers every path of the node, reject and blockmap builders and of their internal workers' collectors. Sound up to: a loop that waits for workers is assumed to end when its counter says so; runtime panics are not modelled."),
 'L03':(FLOW+" of the shared blockmap's request protocol over its users and DoLevel",LEVELNOTE),
 'N02':("interprocedural ownership and effect analysis over SSA: every store into lines, vertices, sidedefs, sectors below the builders, with detachment of a private copy dominating it","Covers every function reachable from the node, reject and blockmap builders. Objects are told apart by type, field and the allocation or copy they come from."),
 'N03':(FLOW+" of the limit checks over the node builder, plus a rule on the functions that choose the format","Covers every path of NodesGenerator and of the multi-format fallback. Which count exceeds a limit is not computed: the rule is that the comparison is made and its outcome obeyed."),
 'N06':("dataflow rule over every record built, converted or renumbered: the source fields each stored field is computed from, child marks, and the index at which a child was appended","Covers every composite store into a node, seg, subsector or vertex record in both node generators. Field families are matched by name, so the rule does not see a wrong arithmetic on the right fields."),
 'B01':(FLOW+" of block offsets from their computation to the delivered lump","Covers every path of the blockmap builder and the functions converting blockmaps to bytes. Sound up to: the limit itself and that the comparison looks at the stored offset are checked, the offset arithmetic is not."),
})

CHECKS.update({
 'N05':("conditional constant propagation over the whole program's SSA, once per accepted option value and once per documented spelling","One run per value and spelling over every function reachable from main. Fields are one abstract cell each (no object sensitivity); an option whose effect is numeric only (a factor, a width) is followed to the configuration field but not into arithmetic. Lengths of arguments are not modelled."),
})

CHECKS.update({
 'N01':("flow-sensitive ownership analysis of the copying functions (which cells of a copy still hold the original's memory at return) plus interprocedural mutation analysis of what remains shared, over every function below the tree workers","Covers every task handed to a tree worker in both node generators, every reference field of the working data and of what it leads to by whole-struct copies, and every package-level variable used below the workers. Memory is told apart by type, field and path from the copy; list elements are one cell each, settled only by loops over the whole list."),
})

CHECKS.update({
 'L07':("interprocedural lock-state dataflow over SSA: which locks are held at each access, entry states from every caller, release on every exit","Covers every function that touches a field of a struct with a mutex in the log, including closures and deferred calls. One lock per object type is told apart by the object it belongs to; the segment dump, filled only when a single tree is built, is excepted."),
 'R01':(FLOW+" of reported errors over the loader of RMB files and every parse function it can dispatch to, plus the path of main() that uses the result","Covers every path of the loader and of every function in the parse table. Sound up to: an error counts as reported where the program calls its error logging or returns a non-nil error; numeric corner cases of the number parser are not modelled."),
})

CHECKS.update({
 'R02':("abstract interpretation of the builder selection and of the option queries it asks, over option kinds and frames, for every combination of up to two kinds of own and of global options (scans visit kinds in any order)","Follows RejectGenerator and every query on the options it calls. Options are reduced to their kind; three and more kinds at once are covered for the kinds that matter only. The lists of one-way options and of options that need groups taken together are taken from the property."),
 'R03':("control-flow ordering analysis per option kind (blocks enabled by each kind, effects below each call), dominance of the calls for global options, and reachability between visibility computation and option application","Covers all three generated variants of the reject builder and every function below them. Effects are stores outside the function's own variables and calls that make them; ASSERT and the like have no effect on the table and are not ordered."),
 'R04':("dataflow from the numbers of parsed commands to every index, with both-ended bounds required by dominating comparisons or by checked helper functions","Covers every use of Data and List of a command below the reject builders and the loader. Validators are recognised by what they return for numbers out of range."),
})

CHECKS.update({
 'R06':("abstract interpretation of the reject builder over option kinds (which functions that look at a kind are reached when it is an own or a global option), effect analysis per kind, and a path check of the warning in the parser","Covers every implemented entry of the parse table in each of the three generated builders. Options are reduced to their kind; numeric conditions may go either way, so an effect is missed only if no such choice reaches it; how the numbers of an option are compared is not decided."),
})

CHECKS.update({
 'R05':(FLOW+" from the request to the answer (which size was compared with which need, what was read from where), relational facts for the size needed, over every function that answers or asks, in all three builders","Covers every function that answers requests for an existing REJECT, every place that asks, and every computation of the size needed. The size formula is compared as a term with the one the lump format gives; sizes of the file system's own reads are those io.ReadFull guarantees."),
 'L05':("whole-program effect analysis of package-level state and of objects that outlive a level (writes below the level processor, with every reader), reset-before-use dataflow over the fields of the level, and a path check of the reuse of an open external wad","Covers every package-level variable, every structure reachable from one, and every field of the level. Options written by the parser are allowed until processing starts. Report file and log are excepted; the reuse check requires the same file as judged by os.SameFile or the same name."),
 'L06':("effect analysis of loops over maps (order-insensitive writes, sums, or sorted on every way on), taint dataflow from clock, random numbers, environment and addresses, and a mirror-image comparison of all paths of each function that chooses between two results","Covers every loop over a map, every source of values that differ between runs, every place that collects results of parallel workers and each comparison used there, with deterministic mode on. Comparisons are shown antisymmetric and total up to the identity of the candidate; transitivity is not decided. Values computed by the same function of each candidate are taken as equal for equal candidates."),
})
