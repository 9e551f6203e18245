//! A scheduler for a case's threads: at most one runs at a time, and every callback the library
//! makes (hash, comparison, clone, operation) is a point where a script hands the turn on.
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

struct State {
    turn: usize,
    done: Vec<bool>,
    pos: usize,
    switches: usize,
    free: bool,
}
pub struct Sched {
    script: Vec<u8>,
    state: Mutex<State>,
    cv: Condvar,
}
/// After this many hand-overs the threads run freely.
const SWITCHES: usize = 3000;

thread_local! { static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) }; }

impl Sched {
    /// Without a script the threads run freely from the start.
    pub fn new(threads: usize, script: Vec<u8>) -> Arc<Sched> {
        let free = script.is_empty();
        Arc::new(Sched { state: Mutex::new(State { turn: 0, done: vec![false; threads], pos: 0, switches: 0, free }), script, cv: Condvar::new() })
    }
    fn lock(&self) -> MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn wait(&self, mut s: MutexGuard<'_, State>, me: usize) {
        while s.turn != me && !s.free {
            let (g, t) = self.cv.wait_timeout(s, Duration::from_secs(5)).unwrap_or_else(|e| e.into_inner());
            s = g;
            if t.timed_out() && s.turn != me {
                // The thread whose turn it is waits for something else than its turn.
                s.free = true;
                self.cv.notify_all();
            }
        }
    }
    fn step(&self, me: usize) {
        let mut s = self.lock();
        if s.free {
            return;
        }
        let b = self.script[s.pos % self.script.len()] as usize;
        s.pos += 1;
        // Odd bytes stay.
        if b % 2 == 1 {
            return;
        }
        let n = s.done.len();
        let next = (0..n).map(|i| (me + 1 + b / 2 + i) % n).find(|t| !s.done[*t]).unwrap_or(me);
        if next == me {
            return;
        }
        s.switches += 1;
        s.free |= s.switches > SWITCHES;
        s.turn = next;
        self.cv.notify_all();
        self.wait(s, me);
    }
    /// Run `f` as thread `me`; the turn is handed on when it ends, however it ends.
    pub fn run<T>(self: &Arc<Self>, me: usize, f: impl FnOnce() -> T) -> T {
        struct End<'a>(&'a Sched, usize);
        impl Drop for End<'_> {
            fn drop(&mut self) {
                ME.with(|m| *m.borrow_mut() = None);
                let mut s = self.0.lock();
                s.done[self.1] = true;
                if let Some(t) = s.done.iter().position(|d| !d) {
                    s.turn = t;
                }
                self.0.cv.notify_all();
            }
        }
        self.wait(self.lock(), me);
        if !self.script.is_empty() {
            ME.with(|m| *m.borrow_mut() = Some((self.clone(), me)));
        }
        let _end = End(self, me);
        f()
    }
    pub fn switches(&self) -> usize {
        self.lock().switches
    }
}
/// A point where another thread of the case may get its turn.
pub fn point() {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((s, i)) = me {
        s.step(i)
    }
}
