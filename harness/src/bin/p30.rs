use hash_trie_pbt::engine::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::time::Duration;

/// A script for the program in /verif/memory, and who is to watch it being played.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Case {
    /// by the interpreter (Miri), or compiled with the address sanitizer
    interpreted: bool,
    head: u8,
    steps: Vec<[u8; 4]>,
}

struct Player {
    child: Child,
    input: ChildStdin,
    replies: mpsc::Receiver<()>,
    report: std::thread::JoinHandle<String>,
}
fn command(interpreted: bool) -> Command {
    let dir = verif_dir();
    let target = dir.join("harness/target/memory");
    let mut c;
    if interpreted {
        c = Command::new("cargo");
        c.args(["+nightly", "miri", "run", "-q", "--offline", "--locked"]).current_dir(dir.join("memory"));
        c.env("MIRIFLAGS", "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks").env("RUSTFLAGS", "-Awarnings").env("CARGO_TARGET_DIR", &target).env("CARGO_NET_OFFLINE", "true");
    } else {
        c = Command::new(target.join("x86_64-unknown-linux-gnu/debug/hash-trie-memory"));
        c.env("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1");
    }
    c
}
impl Player {
    fn start(interpreted: bool) -> Result<Player, String> {
        let mut child = command(interpreted).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).process_group(0).spawn().map_err(|e| e.to_string())?;
        let input = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut err = child.stderr.take().unwrap();
        let (tx, replies) = mpsc::channel();
        std::thread::spawn(move || {
            for l in out.lines() {
                if l.is_err() || tx.send(()).is_err() {
                    return;
                }
            }
        });
        let report = std::thread::spawn(move || {
            let mut s = Vec::new();
            let _ = (&mut err).take(200_000).read_to_end(&mut s);
            let _ = std::io::copy(&mut err, &mut std::io::sink());
            String::from_utf8_lossy(&s).into_owned()
        });
        let p = Player { child, input, replies, report };
        // "ready"
        match p.replies.recv_timeout(Duration::from_secs(60)) {
            Ok(()) => Ok(p),
            Err(_) => Err(p.end()),
        }
    }
    fn play(&mut self, script: &str) -> Result<(), mpsc::RecvTimeoutError> {
        // A player that is gone is noticed by its missing reply.
        let _ = writeln!(self.input, "{script}").and_then(|_| self.input.flush());
        self.replies.recv_timeout(Duration::from_secs(60))
    }
    /// Ends the player and returns what it has reported.
    fn end(mut self) -> String {
        let _ = Command::new("kill").args(["-9", "--", &format!("-{}", self.child.id())]).stderr(Stdio::null()).status();
        let _ = self.child.wait();
        drop(self.input);
        self.report.join().unwrap_or_default()
    }
}
/// What was reported, if it is about memory and not, say, a recursion that went too deep.
fn undefined(report: &str) -> Option<String> {
    for (i, l) in report.lines().enumerate() {
        let known = l.contains("Undefined Behavior") || l.contains("unsafe precondition(s) violated") || (l.contains("ERROR: AddressSanitizer") && !["stack-overflow", "out-of-memory", "out of memory", "allocation-size-too-big"].iter().any(|x| l.contains(x)));
        if known {
            // With the places in the library that the report mentions.
            let at: Vec<&str> = report.lines().skip(i).filter(|l| l.contains("/repo/src/")).take(3).map(|l| l.trim()).collect();
            return Some(format!("{} [{}]", l.trim(), at.join("; ")));
        }
    }
    None
}

thread_local! { static PLAYERS: RefCell<[Option<Player>; 2]> = const { RefCell::new([None, None]) }; }

fn play(case: &Case) -> Result<bool, String> {
    let mut script = format!("{:02x}", case.head);
    for s in &case.steps {
        s.iter().for_each(|b| script += &format!("{b:02x}"));
    }
    PLAYERS.with(|ps| {
        let slot = &mut ps.borrow_mut()[case.interpreted as usize];
        let mut p = match slot.take() {
            Some(p) => p,
            None => match Player::start(case.interpreted) {
                Ok(p) => p,
                Err(report) => {
                    eprintln!("P30: no player: {}", report.lines().last().unwrap_or(""));
                    return Ok(false);
                }
            },
        };
        match p.play(&script) {
            Ok(()) => {
                *slot = Some(p);
                Ok(true)
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                p.end();
                Ok(false)
            }
            Err(_) => {
                // The report is complete once the player has ended by itself.
                for _ in 0..400 {
                    if p.report.is_finished() {
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(50));
                }
                match undefined(&p.end()) {
                    Some(m) => Err(m),
                    None => Ok(false),
                }
            }
        }
    })
}

fn check(case: &Case, info: &mut Info) -> Result<(), String> {
    let no_miri: PathBuf = verif_dir().join("harness/target/memory/no-miri");
    if case.interpreted && no_miri.exists() {
        info.label("no-interpreter");
        return Ok(());
    }
    let heard = play(case).map_err(|m| format!("{}: {m}", if case.interpreted { "Miri" } else { "the address sanitizer" }))?;
    if !heard {
        // Ended otherwise, or did not end: nothing this property is about.
        info.label("gave-up");
        return Ok(());
    }
    let ops: Vec<u8> = case.steps.iter().map(|s| s[0] % 24).collect();
    let grows = ops.iter().filter(|o| matches!(o, 0..=2 | 12 | 13)).count();
    info.nontrivial_if(grows > 0 && ops.iter().any(|o| !matches!(o, 0..=2 | 12 | 13)));
    info.label(if case.interpreted { "miri" } else { "address-sanitizer" });
    info.label(["map-u64-u32", "map-u16-u8", "set-u64-u128", "set-u16-u8"][(case.head & 3) as usize]);
    for (label, which) in [("removal", 3..=4), ("bulk", 6..=11), ("panic", 17..=18), ("reentry", 19..=19), ("abandoned", 20..=20), ("threads", 21..=23)] {
        info.label_if(ops.iter().any(|o| which.contains(o)), label);
    }
    Ok(())
}

fn near(mut steps: Vec<[u8; 4]>, low: u8) -> Vec<[u8; 4]> {
    steps.iter_mut().for_each(|s| s[1] &= low);
    steps
}

fn main() {
    hash_trie_pbt::engine::main(Spec {
        id: "P30",
        rule: "Random scripts of operations on maps and sets (point operations, all joins, transforms and transmutations, dropped versions, panics in the n-th callback, re-entry, abandoned futures, threads sharing versions), every returned reference and pointer read, played by a program that Miri interprets or that is compiled with the address sanitizer. Non-trivial: the script inserts, and does something else, and was played to its end.",
        assumptions: &["keys and values keep their contents on the heap, so that an instance that is gone or was never made is noticed when it is used", "Miri's model of aliasing is Tree Borrows", "races are looked for under Miri only"],
        quick: 32_000,
        thorough: 1_500_000,
        strategy: |big| {
            let step = || (prop_oneof![3 => 0u8..12, 2 => 12u8..15, 1 => 15u8..21, 1 => 21u8..24].boxed(), any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(a, b, c, d)| [a, b, c, d]);
            // Keys from a small range meet again.
            let low = || prop_oneof![Just(255u8), Just(31), Just(7)];
            prop_oneof![
                1 => (any::<u8>(), prop::collection::vec(step(), 2..if big { 24 } else { 12 }), low()).prop_map(|(head, steps, low)| Case { interpreted: true, head, steps: near(steps, low) }),
                79 => (any::<u8>(), prop::collection::vec(step(), 2..if big { 80 } else { 40 }), low()).prop_map(|(head, steps, low)| Case { interpreted: false, head, steps: near(steps, low) }),
            ]
            .boxed()
        },
        check,
        enumerate: None,
    })
}
