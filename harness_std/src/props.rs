use crate::check::*;
use crate::{cli, files, keys, net, tty, ext};
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub hang_s: u64,
    pub assumptions: &'static [&'static str],
    pub run: fn(&mut Cov, u64, u64, bool) -> Res,
}
static PROPS: &[Prop] = &[
    Prop { id: "C28", rule: "Each case is one history. Half: up to 160 keys, each completed, polled, cloned and dropped by two to six threads with injected delays; every operation is recorded with a ticket before and after it and the history is judged offline (delivered once, intact, only after completion began and always once it ended; nothing pending after delivery; every value dropped once). A quarter: single-threaded operation sequences against the three-state machine. A quarter: a clock updated and read by two to seven threads, with and without a cache of each precision; every reading is compared with the true time around it and with the updates that had finished. Distinct: interleavings (order of begins and ends of one key's operations by thread, or of the first 60 clock operations).", quick: 12000, thorough: 400000, hang_s: 60, assumptions: &["Tickets come from one sequentially consistent counter.", "The system clock is not stepped during a case (cases in which it was are inconclusive); processors agree about the time to a microsecond."], run: keys::c28 },
    Prop { id: "C30", rule: "Two thirds of the cases start the real server program on a port of its own, with a stand-in for the cloud server, and drive it over HTTP: random generated projects are loaded, started, stopped, paused (by command and by the program), restarted in bursts and watched to the end while unusable projects (14 kinds), bad inputs, odd requests and up to two further pollers interfere. Its own printed output is the reference for what the polls handed over; the lines of every script, the errors with their blocks and variables, the announcements of loads and GET /project are compared with what the project must do. One third run 'nb run' and 'nb dump' on files with up to three roles, or on unusable files. Distinct: orders of the lines printed by scripts, loads and errors.", quick: 600, thorough: 30000, hang_s: 120, assumptions: &["A program that prints nothing for 20 s while lines are due is held to hang."], run: cli::c30 },
    Prop { id: "C32", rule: "Each case is one run of a random project (up to five sending scripts, receivers, up to 3 message types) on the real StdSystem connected to a scripted server of its own. The server answers service calls with values, images, sounds, failures, truncated and dropped responses after delays; reacts to messages with good, repeated, late, malformed and misaddressed answers; delivers messages and malformed frames of its own. Its record and what the scripts said are judged after the run. One case in 20 cuts the connection mid-run. Distinct: by project text and outcome.", quick: 400, thorough: 12000, hang_s: 90, assumptions: &["An empty answer to a question is only called wrong if the reply had provably been processed two turns before, or if it came earlier than the waiting time.", "A script that makes no progress for 20 s is held to hang."], run: net::c32 },
    Prop { id: "C33", rule: "Each case is one run of 'nb --fs run' (one in ten without --fs) in a scratch folder: up to three scripts each open, read, write, append to and close files of their own through up to three variables (copied, held in lists), with lines around the buffer sizes, broken text, missing files and folders, a full disk, wrong arguments and unknown calls. Every result is compared with a reference file system, and at the end every file of the folder with what it should hold. Distinct: by the sequence of results.", quick: 4000, thorough: 250000, hang_s: 90, assumptions: &["A script that prints nothing for 20 s is held to hang.", "What was written to a file that was never closed is only checked to be a beginning of what should be there."], run: files::c33 },
    Prop { id: "C34", rule: "Each case is one 'nb run' on a pseudo-terminal: up to three scripts ask up to four questions each, others wait for keys (letters, digits, space, arrows, any key; one asks a question), one ticks, one fails. The driver types answers (unicode, corrections, bursts over two questions, arrows in between), resizes the terminal, presses keys, Escape (also with open questions) and Ctrl-C. Every drawn bottom line is read, every answer, key and line compared with what was typed, and the terminal's mode afterwards with that before. Distinct: by the sequence of lines.", quick: 2500, thorough: 120000, hang_s: 200, assumptions: &["A program that shows nothing new for 20 s is held to hang.", "Escape is repeated, with growing pauses, before the project is said not to stop (a terminal cannot tell Escape and a key from Alt and the key when they come together)."], run: tty::c34 },
    Prop { id: "C35", rule: "Each case renders the browser extension with a random syscall menu, server, pull interval and list of omitted elements, loads it in node against stand-ins for the editor's classes, and plays a session of up to 46 steps (opening and closing the terminal, every button, time, pull answers with output and errors, failed pulls, edits, removal of comments). After every step the requests made, the terminal text, the pause button and the comment of every block on screen are compared with what they must be. Distinct: by menu and session.", quick: 12000, thorough: 800000, hang_s: 60, assumptions: &["The editor's classes are stand-ins: collections by tag name are live and removing a comment removes it from its block, as in browsers and Snap!.", "Menu labels are neither whole numbers nor __proto__ and hold no null character; the trace of one error names each block at most once."], run: ext::c35 },
];
pub fn all() -> &'static [Prop] { PROPS }
pub fn find(id: &str) -> Option<&'static Prop> { PROPS.iter().find(|p| p.id == id) }
