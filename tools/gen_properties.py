#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=hook)))

NONET = "The VM-level tests need a live cloud server (they cannot run here) and even those sample a few dozen fixed projects; "

p("C01", "A compiled project behaves as its block program means",
  "For every project built from supported blocks, running the compiled code produces exactly the observable effects the source blocks prescribe (values said, variables and lists updated, host requests with their arguments, values returned), in the prescribed order: operands and arguments left to right and once each, conditionals and and/or short-circuit, loops run the prescribed number of times with the bounds read once, custom blocks and rings return what they report. Nothing an expression evaluates leaks into another expression, statement or call.",
  ["programs", "inputs"], "every program over the supported control, expression, custom-block and ring blocks, at any nesting, with any literal values",
  NONET + "control-flow lowering bugs appear only for particular nestings (a return inside a loop inside a try inside a ring).",
  ["src/bytecode.rs", "src/process.rs"], [("AST lowering", "src/bytecode.rs ByteCodeBuilder::append_stmt/append_expr"), ("instruction dispatch", "src/process.rs Process::step_impl")],
  ["effects seen by the host System (Print, syscalls)", "final globals/fields", "ProjectStep stream"])
p("C02", "Code is laid out and linked correctly whatever the project size",
  "Compiling the same project twice gives identical code, data and symbol information, and the listing of the produced code covers every byte as valid instructions whose targets are instruction starts. What one script does, and which source blocks its errors are reported at, is independent of how much other code, how many other scripts and how much constant data the project holds, including sizes at which the encoding of addresses, lengths and constants changes width.",
  ["programs"], "every project, in particular ones whose code or data crosses 2^7, 2^14 and 2^21 byte boundaries",
  "The unit tests encode isolated integers and check none of the relocation or shrinking logic; no test links a program large enough to change the width of a relocated value.",
  ["src/bytecode.rs"], [("variable-width relocation + shrinking", "src/bytecode.rs ByteCodeBuilder::link"), ("string pool", "bin_pool in link"), ("peephole optimisation", "src/bytecode.rs optimize")],
  ["ByteCode bytes / dump_code / dump_data", "behaviour of probe scripts under padding", "Locations lookup"])
p("C03", "Saved bytecode reloads to the same program",
  "Serialising compiled code, initial-state info and source locations and loading them back gives a program with the same code, the same initial state and the same behaviour and error locations as the original. Input that was not produced by this build (another version's fingerprint, truncated or altered structure) is rejected with an error, never accepted as if valid nor a crash.",
  ["programs", "inputs"], "every compiled project, and every corrupted or foreign-version serialised form of one",
  "No test serialises anything.",
  ["src/bytecode.rs", "build.rs"], [("serde derive + fingerprint tag", "src/bytecode.rs ByteCode/InitInfo/Locations")],
  ["round-tripped values, run side by side"])
p("C04", "Runtime errors are reported at the block that raised them",
  "When a script ends in an error, the error carries the position of the block that raised it and, for every active custom-block or ring call, the position of the calling block, each resolving to the location id that block has in the source (or to none when the source block has none). The error summary given to the editor shows that trace, the calls outermost first and the failing block last, with the entity's name and the values of the variables in scope at each level.",
  ["programs"], "every program and every failing block in it, with any pattern of present, absent and repeated location ids",
  NONET + "the one location test checks a fixed project.",
  ["src/bytecode.rs", "src/process.rs", "src/template.rs"], [("location condensing and lookup", "src/bytecode.rs LocationsBuilder/Locations"), ("error summary", "src/template.rs ErrorSummary::extract")],
  ["ExecError.pos, call stack, ErrorSummary"])
p("C05", "try/catch and errors restore exactly the pre-try execution state",
  "An error raised anywhere inside a try block, at any depth of calls, rings, loops, warps and nested tries, transfers control to the innermost enclosing handler once, with the error text bound to its variable, with local scopes, partial expression results, warp mode and host per-process state as they were on entry to the try. After a try ends, by completing, catching, returning out or stopping, it no longer catches anything, and an error with no active handler ends only the script that raised it, leaving every other script running and unaffected.",
  ["programs", "fault_sequences"], "every program with errors at any point, including host-injected errors from requests, commands and rpcs",
  NONET + "stack restoration depends on the depth of every stack at the moment of the fault.",
  ["src/process.rs", "src/bytecode.rs", "src/project.rs"], [("handler stack and unwinding", "src/process.rs Process::step"), ("PushHandler/PopHandler/Throw/Return", "src/process.rs")],
  ["effects after the catch", "call stack and internal stack sizes (hook)", "Unwindable calls"], hook="stack sizes snapshot")
p("C06", "Runaway recursion ends in a call-depth error, never a crash",
  "A script can never have more active calls than the configured limit: the call that would exceed it raises an ordinary, catchable call-depth error, whether it is a custom block, a ring call or a mix, and calls up to the limit succeed. Scripts whose calls return never accumulate depth, however many calls they make.",
  ["programs", "configurations"], "every recursion pattern and every configured limit",
  NONET + "only direct custom-block recursion at the default limit is tested.",
  ["src/process.rs"], [("max_call_depth check", "src/process.rs Instruction::Call/CallClosure")], ["observed call stack depth at each step", "raised error"])
p("C07", "Variables resolve by scope and rings capture variables by reference",
  "A name resolves to the innermost script/ring/custom-block local of that name, then the sprite's own variable, then the global one, and assignments update that same variable and no other. A ring, an upvar (variables made available to a custom block's caller) or a watcher shares the captured variable itself: updates through either side are seen by the other for as long as both live, even after the defining scope has ended, while separate activations and clones get separate variables. Variable tables, shared handles and table copies used by hosts follow the same rules.",
  ["programs", "histories"], "every nesting of scopes, shadowing, captures and activations",
  NONET + "aliasing bugs need a particular capture/redeclare/write order.",
  ["src/runtime.rs", "src/process.rs", "src/bytecode.rs"], [("Shared aliasing", "src/runtime.rs Shared/SymbolTable/LookupGroup"), ("MakeClosure/InitUpvar/DeclareLocal", "src/process.rs")],
  ["values read back by the program"])
p("C08", "List blocks implement 1-based mutable lists with reference identity",
  "Every list block (get, insert, replace, delete, last/any forms, append, copy, rest, in-front-of, find, contains, length, rank, dimensions, flatten, reshape, columns, reverse, combinations, and list-of-indices forms) returns and mutates exactly what its definition says, lists are shared by reference, and blocks that report a new list never alias its top level with an operand. An out-of-range or ill-typed access raises an error and leaves every list unchanged.",
  ["inputs", "histories"], "every sequence of list operations over any values, including nested, shared, self-containing and empty lists and fractional, textual, negative or zero indices",
  NONET + "each covers a fixed list; sharing, partial failure and index-list corner cases are not reached.",
  ["src/process.rs"], [("list instructions", "src/process.rs Instruction::List*, ops::*")], ["list contents after every operation"])
p("C09", "Arithmetic blocks compute on numbers and broadcast over lists exactly",
  "Numeric blocks give the mathematically defined result of converting their operands to numbers and applying the operation (modulus takes the sign of the divisor, trigonometry is in degrees, rounding is half away from zero, variadic sum/product/min/max fold all items), apply element-wise over nested lists with the shape of the shorter operand and the sharing structure of the operands preserved, and raise an error rather than ever yielding a non-number or an infinite value where none is allowed.",
  ["inputs"], "every pair or list of operands of any type, shape, sharing and magnitude",
  "The unit tests cover the number parser only; VM-level tests cover some fixed operands.",
  ["src/process.rs", "src/util.rs", "src/runtime.rs"], [("unary/binary/variadic ops", "src/process.rs ops"), ("modulus", "src/util.rs"), ("NaN check", "src/runtime.rs NumberChecker")], ["result values"])
p("C10", "Comparison is a consistent equality and order on values",
  "Equality is reflexive, symmetric and independent of representation (numeric text equals the number, text compares ignoring case, lists compare structurally, and a comparison that runs into a list containing itself ends in finite time, with an error if it cannot be decided), is-identical-to means same list or same scalar, and for any two comparable scalars exactly one of <, = and > holds, with <=, >= and != their exact complements. Comparisons that have no meaning raise an error instead of answering, and list find, contains and match use the same equality.",
  ["inputs"], "every pair and triple of values of any type, shape and sharing",
  NONET + "laws over all pairs are not checked anywhere.",
  ["src/process.rs"], [("check_eq / cmp / identical", "src/process.rs ops::cmp, ops::check_eq, ops::identical, ops::find")], ["results of comparison blocks"])
p("C11", "Text blocks operate on unicode characters correctly",
  "Length, letter-of, join, split (by letter, word, line, tab, carriage return, custom separator), unicode-of and unicode-as-letter operate on whole characters of any script, agree with each other (joining what split produced with the separator gives the original; letter i is item i of the split by letter; the length is the number of letters) and raise errors, not garbage, for positions or code points that do not exist.",
  ["inputs"], "every text, including combining, astral and empty ones, and every index or separator",
  NONET + "a handful of literals only.",
  ["src/process.rs", "src/runtime.rs"], [("text ops", "src/process.rs ops::split, ops::index_string, ...")], ["results of text blocks"])
p("C12", "CSV and JSON conversion lose nothing",
  "Converting any table of texts (rows not empty) to CSV text and splitting it back, or any simple value to JSON text or JSON and back, gives an equal value, whatever quotes, commas, newlines, unicode or nesting it contains; malformed text and values that cannot be represented (rings, sprites, cyclic lists, infinities) raise an error. The NetsBlox exchange form (used for services and messages) likewise returns every simple value, including images and sounds with their names, content and centers, unchanged up to its representation of booleans and numbers as text.",
  ["inputs"], "every simple value and every text",
  NONET + "the unit tests cover number parsing/printing for a few values.",
  ["src/process.rs", "src/runtime.rs"], [("CSV", "src/process.rs ops::from_csv/to_csv"), ("JSON", "src/runtime.rs SimpleValue::{into_json,from_json,into_netsblox_json,from_netsblox_json}")], ["round-tripped values"])
p("C13", "Scheduling is fair, in order, and warp is atomic",
  "Scripts that are ready run in round-robin order in the order they became ready: each runs until it yields (at the end of each iteration of a loop, at a wait, or at a pending host operation), no script runs twice between two turns of another ready script, and scripts started by one event start in project order. Inside a warp block, or a custom block called from it, a script never gives up its turn to another script except for a wait or host operation that is not finished, and the warp ends when the block does, however it is left.",
  ["schedules", "programs"], "every set of concurrent scripts and every mix of waits, loops, warps, host completion times and inputs",
  NONET + "the interleaving is never checked beyond a few fixed projects.",
  ["src/project.rs", "src/process.rs"], [("process queue", "src/project.rs Project::step"), ("yield / warp counter", "src/process.rs Instruction::Yield/WarpStart/WarpStop")], ["ordered event log of script actions", "ProjectStep stream"],
  [("process queue", "round-robin order of live processes", "src/project.rs State.process_queue")])
p("C14", "Every event starts exactly the scripts hatted for it",
  "A start, key, local message, network message, clone or custom event starts each script whose hat matches it (the named or any key, the named or any message, the named event with its arguments bound by name) for the sprite it targets, and no other script. A key or clone event for a script that is still running is dropped, a start event or a local message restarts it, network messages queue without loss or reordering and are handled one after another, and custom events queue up to their stated limit, or interrupt, as the caller asked; after the running activation ends, the next queued one begins.",
  ["histories", "schedules"], "every history of inputs and messages over every set of hats, in every run/idle state of the target scripts",
  NONET + "queue/interrupt policies are covered by one or two fixed histories.",
  ["src/project.rs"], [("input dispatch", "src/project.rs Project::input"), ("per-script context queue", "src/project.rs Script::schedule/consume_context")], ["ordered start/finish log of every script activation"],
  [("context_queue", "pending activations of a script", "src/project.rs Script")], "queue lengths snapshot")
p("C15", "Broadcast-and-wait resumes exactly when all receivers have ended",
  "A broadcast starts, or restarts, every matching receiver of every targeted entity once, including clones and the sender itself, with the message text available to it. A waiting broadcast resumes its sender after all the receivers it started have finished, failed, been restarted or been stopped, and not before; a non-waiting one continues at once.",
  ["schedules", "histories"], "every set of receivers and senders, nested and concurrent broadcasts, restarts, errors and stops while waiting",
  NONET + "no test restarts, stops or fails a receiver of a pending broadcast.",
  ["src/project.rs", "src/process.rs", "src/runtime.rs"], [("barrier tokens", "src/runtime.rs Barrier/BarrierCondition"), ("broadcast dispatch", "src/project.rs step, ProcessStep::Broadcast")], ["ordered event log"])
p("C16", "Stop blocks and the stop button end exactly the scripts they name",
  "After the stop button or 'stop all', no script that was running, waiting or queued acts again; 'stop this script' ends only the script it is in (and a queued activation of it then begins), 'stop this block' ends only the current custom block or ring, and 'stop other scripts' (everywhere or in the sprite) end all others in that scope and nothing else (activations queued for those then begin). The project stays usable: events arriving after a stop start their scripts normally, from a clean state.",
  ["schedules", "histories"], "every point of execution at which a stop can occur, in every script set and history of earlier and later inputs",
  NONET + "stops are tested at one or two points, never with queued activations or later events.",
  ["src/project.rs", "src/process.rs"], [("abort modes", "src/project.rs step, ProcessStep::Abort"), ("stop input", "src/project.rs input, Input::Stop")], ["ordered event log", "queue snapshot (hook)"], hook="queue lengths snapshot")
p("C17", "Clones are independent copies with their own scripts and lifetime",
  "Creating a clone (of self, of another sprite or of a clone) gives a new entity whose variables start with the values of its parent, which has the scripts of its original sprite, and runs its clone hats; afterwards changes to variables, costume and properties of either side do not show in the other, while lists remain shared references. Deleting a clone ends all its scripts at once and it receives no further events; deleting has no effect on anything that is not a clone.",
  ["histories", "schedules"], "every tree of clones of clones, created, messaged and deleted in any order, from inside or outside",
  NONET + "one fixed project makes clones.",
  ["src/process.rs", "src/project.rs", "src/runtime.rs"], [("clone creation", "src/process.rs Instruction::Clone / DeleteClone"), ("script binding for clones", "src/project.rs step, CreatedClone/DeletedClone")], ["event log by entity identity"])
p("C18", "Each host operation is issued once and its result reaches its issuer",
  "Every block that asks the host for something (service call, syscall, unknown block, ask, say, property access, sound, motion) issues exactly one request or command with the arguments the program computed, and that script, and only that script, continues with the result given for it when it completes, whenever and in whatever order operations complete, while other scripts keep running. A failure becomes a catchable error, or for service calls and syscalls under the soft scheme, a value reported by the program with the error text available to the error block, and success clears it; operations the host does not handle give a not-supported error naming the feature. While the host handles an operation, the program's variables, lists and sprites are free for it to read and change, except a sprite lent to it.",
  ["schedules", "fault_sequences"], "every program, every completion order and delay, and every pattern of failing operations under every error-scheme setting",
  NONET + "completion order and failures are controlled by the live server.",
  ["src/process.rs", "src/runtime.rs", "src/std_system.rs"], [("deferred requests", "src/process.rs Defer, perform_request/poll_request"), ("error schemes", "src/runtime.rs ErrorScheme")], ["request/complete/resume event log"])
p("C19", "Network messages are sent, delivered and answered at most once, correlated",
  "Sending a message transmits it once, with the named type, fields and targets; each arriving message starts each matching receiver once with exactly its fields bound, fields it lacks as 0. A send-and-wait gets the reply to that very message, or the empty value on timeout, and never another's reply; a reply block answers the message its script was started by, at most once per script, and does nothing in a script not started by such a message.",
  ["schedules", "histories", "fault_sequences"], "every history of sends, arrivals, replies, lost, late, duplicated and unknown replies across concurrent scripts",
  NONET + "message tests use the live relay server and fixed ordering.",
  ["src/project.rs", "src/process.rs", "src/std_system.rs"], [("message dispatch", "src/project.rs step"), ("reply keys", "src/process.rs SendNetworkReply; src/std_system.rs send_message/poll_reply/send_reply")], ["wire traffic at a loopback server", "System callbacks"])
p("C20", "Waits and timers follow the host clock",
  "A wait (or timed say/think) lets its script continue at the first turn at which at least the stated time (to the millisecond) has passed since it began, never earlier, whatever the length, and lets other scripts run meanwhile; wait-until re-evaluates its condition each turn and continues as soon as it is true. The timer reports the seconds since the project started or the last reset, and date/time blocks report the fields of the host's local time.",
  ["inputs", "schedules"], "every duration (fractional, zero, negative, huge), every advance of the clock and every number of concurrent waiters",
  NONET + "sleeps in real time are too slow and too coarse to test.",
  ["src/process.rs", "src/project.rs"], [("sleep deferral", "src/process.rs Instruction::Sleep, Defer::Sleep"), ("timer", "src/process.rs PushTimer/ResetTimer")], ["resume times under a virtual clock"])
p("C21", "Sprite properties keep their ranges and laws under any updates",
  "Setting, changing and reading position, heading, size, pen, colour, transparency, visibility, tempo, volume, balance and effects follows their definitions: headings stay in [0,360), percentages in [0,100], sizes and pen sizes are not negative, reading returns what was set within the range, turning left undoes turning right, forward moves along the heading, pointing towards a place makes forward approach it, and setting one property never disturbs another beyond what shared colour components imply. Colour conversion between hue/saturation/brightness and red/green/blue returns the same colour.",
  ["inputs", "histories"], "every sequence of property operations with any values",
  "Colour conversion is sampled by a unit test; property sequences are covered by fixed projects that cannot run here.",
  ["src/runtime.rs", "src/bytecode.rs", "src/process.rs"], [("Properties::perform_*", "src/runtime.rs"), ("Color", "src/runtime.rs"), ("motion blocks", "src/bytecode.rs, src/process.rs")], ["property values after every operation"])
p("C22", "Costumes, sounds and notes are looked up and converted faithfully",
  "Switching costume by name, by image or to next gives the sprite exactly that costume (next cycles through the list in order and wraps), an unknown name raises an error and changes nothing, and costume number, name and list agree with each other; sounds likewise resolve by name or value and play the same content. Every MIDI note number 0-127 or note name converts to the note it denotes, names and numbers convert back and forth consistently, and anything else is rejected.",
  ["inputs", "histories"], "every costume/sound list and every sequence of switches; every note number and note name",
  "One unit test covers plain MIDI numbers; costume projects cannot run here.",
  ["src/process.rs", "src/runtime.rs"], [("SetCostume/NextCostume/PlaySound", "src/process.rs"), ("Note", "src/runtime.rs")], ["costume after every operation", "commands issued"])
p("C23", "A project starts in exactly the state its file declares",
  "Instantiating a compiled project creates every global, sprite, sprite variable, costume and sound the project declares, with the declared names and values and the declared position, heading, size, visibility and colour; references that the file shares (the same list in two variables, lists containing themselves) are shared in the running project in the same way and nothing else is. Two instances of the same compiled project share no mutable state.",
  ["programs", "inputs"], "every declared value graph, including shared, nested and cyclic lists and media",
  NONET + "two fixed files check list sharing.",
  ["src/bytecode.rs", "src/runtime.rs"], [("init-info extraction", "src/bytecode.rs extract_init_info"), ("instantiation", "src/runtime.rs GlobalContext::from_init")], ["initial globals, fields, costumes, identities"])
p("C24", "Execution is deterministic and unaffected by garbage collection",
  "With the same inputs, clock, random source and host answers, a project runs through the same steps and effects every time, whether or not garbage collections happen between any two steps, and independently of any other project or instance running in the same program.",
  ["schedules", "programs"], "every program, with a collection possible between any two steps",
  "No test forces collections at chosen points or measures memory.",
  ["src/runtime.rs", "src/process.rs", "src/project.rs"], [("gc-arena Collect impls", "src/process.rs, src/project.rs, src/runtime.rs"), ("GcWeak watchers", "src/runtime.rs Watcher")], ["side-by-side traces", "arena metrics"])
p("C25", "No project, input or host behaviour can crash the VM",
  "Compiling and running any project the parser accepts, under any sequence of inputs, messages, clock readings and host results, never panics, overflows, breaks an internal assertion or hangs inside a single step: unsupported constructs are compile errors, and everything that goes wrong at run time is an error of the script concerned. Malformed serialised values, tables and names given to the public conversion functions are rejected with errors.",
  ["programs", "inputs", "histories", "fault_sequences"], "all of the above, within available memory",
  "Tests run well-formed fixed projects; no hostile values, inputs or host faults.",
  ["src/process.rs", "src/project.rs", "src/bytecode.rs", "src/runtime.rs", "src/util.rs"], [("error results everywhere, forbid(unsafe_code)", "src/")], ["panic/abort/watchdog monitors"])
p("C26", "Watchers and pause expose the live program without disturbing it",
  "Showing a variable hands the host one watcher that names the variable and reads its current value at any later time, for as long as the variable exists and however it is reassigned, captured or its script ends, and hiding hands back the same variable; a watcher of a variable that no longer exists reads as gone rather than stale. Showing, hiding and pausing change nothing else about what the program does, and a paused program resumed continues where it stopped.",
  ["histories", "schedules"], "every order of show, hide, assign, capture, scope exit and collection",
  NONET + "one fixed project.",
  ["src/process.rs", "src/project.rs", "src/runtime.rs"], [("Watcher creation", "src/process.rs Instruction::Watcher"), ("ProjectStep::Pause/Watcher", "src/project.rs")], ["watcher reads vs program state"])
p("C27", "The map and slot containers behave as maps and stable-key slots",
  "The public vector map, sorted or not, behaves as a map: one entry per key, last write wins, iteration yields each entry once (in key order when sorted), and lookups, updates and serialised forms agree. The slot container gives every inserted value a key that retrieves that value until it is removed and never retrieves another value afterwards, however slots are reused, and its length, iteration and retain agree with what was inserted and removed.",
  ["histories", "inputs"], "every sequence of operations",
  "The unit tests run three short scripted sequences.",
  ["src/vecmap.rs", "src/slotmap.rs"], [("VecMap", "src/vecmap.rs"), ("SlotMap generation/version keys", "src/slotmap.rs")], ["operation results vs a reference map"])
p("C28", "Shared clock and completion keys are safe across threads",
  "A completion key completed on any thread delivers its value exactly once to the poller, never before it is completed, never a second time and never torn, and a key that is dropped or still pending never delivers. The shared clock never reports a cached time ahead of the true time or older than the last update made before the read, and a read more precise than the cache never uses it, with any number of updating and reading threads.",
  ["schedules"], "every interleaving of completing, polling, updating and reading threads",
  "The tests are single threaded.",
  ["src/std_util.rs", "src/runtime.rs"], [("AsyncKey/AsyncResult", "src/std_util.rs, src/runtime.rs"), ("Clock cache", "src/std_util.rs Clock")], ["per-thread event logs checked offline"])
p("C29", "Host configuration overrides compose, and idling is bounded",
  "Given layered host configurations, every request and command is offered to the earlier layer first and exactly once, is offered to the next layer only if the earlier one declined it, with its contents and completion key unchanged, and ends in a not-supported error only when all decline. The idle helper acts only after the stated number of consecutive steps without work and never while scripts are making progress.",
  ["configurations", "programs"], "every layering of configurations and every pattern of handling, declining and step results",
  NONET + "no layered configuration is tested.",
  ["src/runtime.rs", "src/project.rs", "src/std_system.rs"], [("Config::fallback", "src/runtime.rs"), ("IdleAction", "src/project.rs"), ("default handlers", "src/std_system.rs")], ["call log of every layer"])
p("C30", "The command-line server runs, reports and controls projects faithfully",
  "The nb server returns the project last loaded successfully, keeps the previous project when a new one cannot be loaded and reports why, starts, stops and pauses it on command, and hands every line the program printed and every runtime error to the editor exactly once and in order across polls. 'nb run' executes the named role of the file and prints what it says; unusable files, roles and requests are refused with a message and leave the server running.",
  ["histories", "inputs"], "every sequence of HTTP requests and every project, well formed or not",
  "No test starts the server or the command.",
  ["src/cli.rs", "src/main.rs", "src/template.rs"], [("HTTP endpoints and run loop", "src/cli.rs run_server"), ("run_proj_non_tty", "src/cli.rs")], ["HTTP responses and stdout of the real binary"])
p("C31", "Random blocks stay in range and reach every choice",
  "Pick-random gives an integer between its bounds inclusive when both are integers and a number between them otherwise, in either order of the bounds; the any-item and any-letter forms give, replace, insert at or remove an existing position, and raise an error on empty. Every permitted outcome can occur, and separate evaluations draw separately.",
  ["inputs"], "every pair of bounds (negative, fractional, swapped, equal, huge) and every list or text, over many draws",
  NONET + "one fixed project draws from a few ranges.",
  ["src/process.rs", "src/runtime.rs"], [("BinaryOp::Random, ListRandom, StrGetRandom", "src/process.rs")], ["observed draws per operand"])
p("C32", "Messages and service calls reach the network once and answers find their asker",
  "Over the standard system, every service call a script makes is exactly one request to the service and host it named, with its arguments, and the calling script alone gets that request's answer (value, image, sound or error). Every message sent is one network message to the named targets, and a question ends with the first answer bearing its own request id, or empty after the waiting time, whatever other answers arrive. Every message that arrives starts each matching receiver once with its fields, is answered at most once per receiver and only to its asker; malformed frames are ignored, server pings are answered, and losing the connection never crashes the program.",
  ["schedules", "histories", "fault_sequences"], "every mix of concurrent calls, messages, questions, arrivals, delays, duplicated, late, malformed or missing answers, and connection loss",
  "The tests that use StdSystem need the live cloud server, and no server misbehaves on demand.",
  ["src/std_system.rs", "src/process.rs", "src/project.rs"], [("websocket tasks, reply table", "src/std_system.rs StdSystem::new_async, send_message, poll_reply, send_reply, receive_message"), ("service calls", "src/std_system.rs call_rpc_async, rpc_request_pipe"), ("message blocks", "src/process.rs SendNetworkMessage / SendNetworkReply")],
  ["requests and frames recorded by a loopback server", "values the scripts say"])
p("C33", "File syscalls of the command-line program read and write files faithfully",
  "With --fs, a script's open, readLine, writeLine and close calls do to the named files exactly what they say: reading gives each line once, in order and unchanged, with its line ending, then the empty text; writing truncates or appends as asked and each value written is one line; after close every line that was accepted is in the file, or the loss is reported; a handle works through every variable that holds it until it is closed. Anything else (missing files, broken text, wrong arguments, wrong kind of handle, closed handles, unknown modes or calls) is an error of that call and changes nothing; without --fs every call is refused and no file is touched.",
  ["inputs", "histories", "fault_sequences"], "every sequence of calls by any number of scripts on any file contents, names, arguments and disk failures",
  "No test runs the command-line program or its syscalls.",
  ["src/main.rs", "src/process.rs"], [("file syscalls", "src/main.rs main: open, close, readLine, writeLine"), ("syscall instruction", "src/process.rs Instruction::Syscall")],
  ["lines printed by nb --fs run", "files of the scratch folder afterwards"])
p("C34", "Interactive runs show output, questions and keys faithfully",
  "When nb run has a terminal, every line and error of the scripts is shown once and whole; questions are shown one at a time, oldest first, on the bottom line with the text typed so far, also after a resize; keys typed while a question is open go to it alone (backspace corrects), Enter gives exactly that text to the script that asked and to no other; keys typed while none is open start the hats for that key and for any key, and only those; Escape stops the scripts (a question left open by it just goes away when answered); Ctrl-C ends the program with the terminal restored; an unusable project is reported.",
  ["inputs", "schedules", "histories"], "every project and every sequence of keys and resizes, for keys delivered one event at a time (Enter itself and keys the terminal library merges with a resize are outside)",
  "No test runs the command-line program, let alone on a terminal.",
  ["src/cli.rs", "src/main.rs", "src/std_system.rs"], [("terminal run loop", "src/cli.rs run_proj_tty"), ("asking", "src/std_system.rs input command handling, src/process.rs Ask / answer")],
  ["bytes drawn on the pseudo-terminal", "keys and answers typed", "terminal attributes before and after"])
p("C36", "A project keeping bounded data runs in bounded memory and frees it all",
  "A project that keeps a bounded amount of data reachable runs in bounded memory however long it runs: lists and rings no longer reachable are reclaimed even when they contain themselves or each other, and so is everything belonging to ended, stopped or failed scripts, deleted clones, caught errors, dropped events, answered or abandoned requests and messages, and watchers. When the instance is dropped everything it allocated is freed.",
  ["programs", "histories"], "every project with bounded reachable data and every endless sequence of inputs, messages and stops",
  "No test measures memory, and a leak shows only over many turns.",
  ["src/runtime.rs", "src/process.rs", "src/project.rs", "src/slotmap.rs", "src/vecmap.rs"], [("gc-arena Collect impls", "src/process.rs, src/project.rs, src/runtime.rs"), ("removal of scripts and processes", "src/project.rs Project::step, Script"), ("slot reuse", "src/slotmap.rs")],
  ["bytes allocated and freed by the thread, after full collections"])
p("C35", "The editor extension controls the server and shows all it reports",
  "The extension script rendered for any syscall menu, server address and pull interval loads and offers exactly that menu. Its buttons send exactly the command they name, Upload sends the current project with every omitted element left out and nothing else changed. While its terminal is open it pulls once per interval, one pull at a time, through failed pulls as well; every piece of output is appended once and in order (the oldest part dropped beyond the size limit), also when it arrives after the terminal was closed; and every error is shown, with its cause and the variables of each trace entry, at every block on screen or in a custom block definition that the trace names, whatever blocks no longer exist or definitions are empty, a new error replacing the whole earlier error at a block.",
  ["inputs", "schedules", "histories"], "every menu, project, block layout, sequence of button presses and pull answers",
  "Only the formatting of five fixed menus is tested; no test runs the script.",
  ["src/template.rs", "src/assets/extension.js"], [("rendering", "src/template.rs SyscallMenu::format, ExtensionArgs::render"), ("the extension", "src/assets/extension.js request, cleanXML, TerminalMorph, NativeExtension")],
  ["requests made by the script", "text of the terminal", "comments on blocks", "menu given to the editor"])
p("C37", "Hosts can run single scripts and blocks or assemble projects by hand",
  "Compiling lists every script, method and custom block with the place where it starts. A project assembled by a host from the global context and such places, bound to any events in any order, at first or while it runs, does what a project with those scripts does; a process created at such a place for an entity and given local variables, and stepped by the host, has the same effects, result, error, trace and remaining state (that of the host included) as that script in a project by itself. Until it ends it says that it is running and has a call stack starting with that entity; once it returned, failed or was stopped it is idle for good, and stepping it does nothing.",
  ["programs", "inputs", "schedules"], "every project, every script, method or block of it without upvars, every binding of events and every argument",
  "The tests step a handful of fixed blocks to their result; they compare no process with the project around it and assemble no project by hand.",
  ["src/bytecode.rs", "src/process.rs", "src/project.rs"], [("script listing", "src/bytecode.rs ByteCode::compile, ScriptInfo"), ("single process", "src/process.rs Process::new, step, is_running, get_call_stack"), ("assembling", "src/project.rs Project::new, add_script, from_init")],
  ["event log and final state of the project or process", "call stack and running state before every step"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
