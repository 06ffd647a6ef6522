package main

var reportsNondeterminism = map[string]bool{"C01": true, "C06": true, "C08": true, "C09": true, "C10": true, "C12": true}

var libReal = []string{"github.com/vim-jp/go-vimlparser (all library packages, unmodified but for a scheduling point before every statement)"}

var readerStub = "io.Reader of the caller (simulated: seeded fragmentation, empty reads, errors, stalls, panics)"

const gen1 = "A case draws an input (generated script or expression with its expected tree, test or real script, damaged script, token soup) and "

var plans = map[string]plan{
	"C01": {bin: "simlib", batch: 250, cases: 60000, level: "exploration",
		rule:   gen1 + "one to four deliveries of the same bytes; the result in one piece is compared with the expected tree, each delivery with the result in one piece. Non-trivial: some delivery took more than two reads. Distinct: by hash of everything observed.",
		states: "distinct pairs of input and delivery",
		real:   libReal, stub: []string{readerStub}},
	"C02": {bin: "simlib", batch: 1000, cases: 240000, level: "fault_enumeration",
		rule:   gen1 + "one to six read failures of 23 kinds at drawn byte offsets (any, first, last, block sizes, line breaks), with or without data, permanent or healing. Non-trivial: a failure fired. Distinct: by hash of everything observed.",
		states: "distinct triples of input, failure offset and error kind",
		real:   libReal, stub: []string{readerStub}},
	"C03": {bin: "simlib", batch: 250, cases: 60000, level: "fault_enumeration",
		rule:   gen1 + "one to four damages of the stream from a drawn byte on (truncation, flipped bytes, lost, repeated or foreign block, overwritten tail, garbage); statements delivered before it must stay as they were. Non-trivial: at least one statement lay before the damage.",
		states: "distinct damaged streams",
		real:   libReal, stub: []string{readerStub}},
	"C04": {bin: "simlib", batch: 1000, cases: 240000, level: "exploration",
		rule:   "A case draws a hostile stream (damaged script, token soup, one construct piled up to 400 deep, balanced or not) and a delivery, and judges the one verdict it gets. Every case is non-trivial. Distinct: by hash of everything observed.",
		states: "distinct streams",
		real:   libReal, stub: []string{readerStub}},
	"C05": {bin: "simlib", batch: 500, cases: 100000, level: "exploration",
		rule:   gen1 + "a delivery of its bytes; every position of the tree is compared with the positions the generator computed, or (scripts without a model) with the delivered bytes: offset against line and column, text at the offset against the node's token. Non-trivial: more than three positions or an error were checked.",
		states: "distinct streams",
		real:   libReal, stub: []string{readerStub}},
	"C15": {bin: "simlib", batch: 500, cases: 100000, level: "exploration",
		rule:   gen1 + "one to three recording readers (plain, or offering Close, Seek, ReadAt, ReadByte and more) with a delivery and possibly an error or a panic; the history of calls is judged. Non-trivial: more than one Read call.",
		states: "distinct triples of input, delivery and fault",
		real:   libReal, stub: []string{readerStub}},
	"C06": {bin: "simlib", batch: 500, cases: 120000, level: "fault_enumeration",
		rule:   "A case draws and parses an input and makes one to five renderings of the tree or of a part of it (package function, Compiler values used again, printer), most with a failure of the destination (over fifty errors, short write, error with everything taken, panic; also under or instead of destinations of the standard library) at a drawn byte, each followed by the same rendering to a healthy destination. Output is compared with an independent rendering of the expected tree. Non-trivial: a failure fired.",
		states: "distinct triples of tree, operation and fault",
		real:   libReal, stub: []string{"io.Writer of the caller (simulated: seeded failures)", readerStub}},
	"C07": {bin: "simlib", batch: 250, cases: 40000, level: "exploration",
		rule:   "A case draws and parses an input and runs two to nine operations (Compile, Compiler values used again, Fprint, Walk, Inspect, JSON, Pos/Cmd) on one tree, also inside one another, with failing or panicking destinations and visitors that panic or prune at drawn points; the tree is dumped after each and each result compared with that on a fresh tree and with the model. Non-trivial: an operation was abandoned or met a failure.",
		states: "distinct histories",
		real:   libReal, stub: []string{"io.Writer and ast.Visitor of the caller (simulated: seeded failures)", readerStub}},
	"C11": {bin: "simlib", batch: 500, cases: 100000, level: "exploration",
		rule:   "A case draws and parses an input and makes one to five traversals (Walk with a visitor of its own for every node, Inspect) from the root or a part, with seeded pruning and with a stop (panic, prune all) at a drawn visit; the sequence of visits is compared with the one the tree implies. Non-trivial: more than four visits.",
		states: "distinct pairs of tree and visitor plan",
		real:   libReal, stub: []string{"ast.Visitor of the caller (simulated: seeded pruning and panics)", readerStub}},
	"C08": {bin: "simrace", batch: 20, cases: 16000, level: "exploration",
		rule:   "A case draws two to six tasks of one to three parses each (own readers, shared option values, Vim and Neovim, mode probes, equal scripts), some with readers that stall, fail or panic, and a schedule (random walk, PCT, round robin over scheduling points before every statement), and runs them concurrently before anything else is parsed; afterwards each call alone gives the expected result. 20 cases a process, the first one on a package never used before; binary built with the race detector, whose hand-offs by the scheduler it does not see. Non-trivial: more context switches than tasks.",
		states: "distinct pairs of tasks and schedule",
		real:   libReal, stub: []string{readerStub, "Go scheduler and sync.Pool (simulated)"}},
	"C09": {bin: "simrace", batch: 20, cases: 24000, level: "exploration",
		rule:   "A case parses one or two trees and draws two to six tasks of one to three operations each on them (Compile, own Compiler values, Fprint, Walk, Inspect, JSON, Pos/Cmd, now and then a parse), some with destinations or visitors that stall, fail or panic, and a schedule (random walk, PCT, round robin over scheduling points before every statement); each result is compared with that alone on a fresh tree and with the model, and the trees are dumped before and after. Binary built with the race detector. Non-trivial: more context switches than tasks.",
		states: "distinct pairs of tasks and schedule",
		real:   libReal, stub: []string{"io.Writer and ast.Visitor of the caller (simulated)", readerStub, "Go scheduler and sync.Pool (simulated)"}},
	"C10": {bin: "simlib", batch: 25, cases: 50000, level: "exploration",
		rule:   "A case draws a history of two to ten calls (parses of different scripts in different modes through one option value, Compile, Compiler values used for several trees, Fprint, Inspect, overwriting every field of a tree), many met by a failing or panicking reader, writer or visitor; trees must share nothing mutable, results must fit the model, other trees must stay as they are, and one call, mostly the last, is repeated alone in a fresh process with the same result. 25 histories a process. Non-trivial: a fault fired, a tree was overwritten, or the call repeated alone was not the first.",
		states: "distinct histories",
		real:   libReal, stub: []string{readerStub, "io.Writer and ast.Visitor of the caller (simulated)"}},
	"C12": {bin: "simcli", batch: 50, cases: 12000, level: "fault_enumeration",
		rule:   "A case draws an invocation of the command (flags, none to some twenty inputs, standard input; scripts that parse or not) and a fault per input (missing, not openable in 10 ways, directory, read error in 8 ways at a drawn byte, healing or not, close error, short reads), runs the command as one simulated process and judges standard output, standard error and status. Non-trivial: an input fails, or standard input is used. Distinct: by hash of everything observed.",
		states: "distinct pairs of invocation and faults",
		real:   cliReal, stub: cliStub},
	"C13": {bin: "simcli", batch: 50, cases: 7000, level: "fault_enumeration",
		rule:   "A case draws an invocation as for C12, runs it with a healthy standard output, and then one to three times with a standard output that fails (ENOSPC, EIO, EPIPE, EDQUOT, EFBIG, EBADF; once or for good; with system calls that take a part only) at a drawn byte. Non-trivial: a write failed.",
		states: "distinct triples of invocation, failure offset and error",
		real:   cliReal, stub: cliStub},
	"C14": {bin: "simcli", batch: 25, cases: 2500, level: "exploration",
		rule:   "A case draws an invocation with 3 to 212 inputs with faults as for C12, runs it without and with a limit of 6 to 20 descriptors, sometimes with a failing standard output, and judges the history of opens and closes. Every case is non-trivial.",
		states: "distinct invocations",
		real:   cliReal, stub: cliStub},
	"C16": {bin: "simcli", batch: 25, cases: 4000, level: "fault_enumeration",
		rule:   "A case draws an invocation and runs it two to five times on one simulated machine. Between the runs inputs are replaced (also by content of the same size and time stamp), the mode may change, the clock moves on or back, power may be lost (files that were written but not synced are whole, cut, zeroed, empty, old or gone); a run may be killed at a drawn system call (a write may get through in part), the disk may be full, environment variables are set or not, the standard streams are pipes, files, terminals or the null device. Each run that ends is judged by the model and against the same run on an empty machine; a killed run must have written a leading part of that. One case in four runs two or three invocations at one time, the scheduler deciding at which system calls they take turns (a process goes on by being run again from its beginning with what the others did to the disk put in where it had halted). Every case is non-trivial.",
		states: "distinct pairs of run (with its machine) and output",
		real:   cliReal, stub: append([]string{"the machine between runs: disk with caches, crash, loss of power, environment, terminals, clock (verif/simos)"}, cliStub...)},
	"C17": {bin: "simlib", batch: 50, cases: 30000, level: "exploration",
		rule:   "A case draws a call (parse, Compile, own Compiler values, Fprint, Walk, Inspect, JSON, Pos), what befalls its reader, destination or visitor (error, panic, stall, pruning) and a schedule, makes it six times in one simulation, lets everything run on until nothing moves, and counts the goroutines that still run or wait; what there is one of for all calls is told from what there is one of for each by three times as many calls. One case in 25 makes hundreds of calls with different contents, names and faults and measures the live heap between them. Non-trivial: a fault fired, or memory was measured.",
		states: "distinct pairs of call and schedule",
		real:   libReal, stub: []string{readerStub, "io.Writer and ast.Visitor of the caller (simulated)", "Go scheduler and timers (simulated)"}},
	"C18": {bin: "simlib", batch: 100, cases: 30000, level: "exploration",
		rule:   "A case draws a chain of two to some thirty calls (parses with their own deliveries, Compile, own Compiler values, Fprint, Walk, Inspect, JSON, Pos), each made from within the reader, the destination or the visitor of the one before at a drawn byte or visit, some of them on the same tree, some failing or panicking inside; or up to seventy pairs of calls where one parses what the other renders, through a pipe that stores nothing, all in tasks under a drawn schedule. Each result is compared with that of the call alone, made before or after; all of them must return. Non-trivial: a call was made from within another one, or through a pipe.",
		states: "distinct chains, and distinct pairs of pipes and schedule",
		real:   libReal, stub: []string{readerStub, "io.Writer and ast.Visitor of the caller (simulated)", "Go scheduler (simulated)"}},
}

var cliReal = []string{"cmd/vimlparser (compiled unmodified into the simulator but for its imports of os, fmt, log, io/ioutil, sync and os/signal and a scheduling point before every statement), flag and encoding/json of the standard library", "github.com/vim-jp/go-vimlparser (all library packages)"}
var cliStub = []string{"the operating system: file system, descriptors and their limit, standard streams, exit, SIGPIPE (verif/simos)"}
