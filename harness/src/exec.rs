//! The executor the bulk operations run under, and ways to interfere with them.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake};
use std::time::Duration;

/// What to do with the next future, before each time it is polled: poll it, or drop it.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Then {
    Poll,
    Abandon,
}
type Before = Box<dyn FnMut(u64) -> Then>;
thread_local! {
    static BEFORE: RefCell<Option<Before>> = const { RefCell::new(None) };
    static REENTER: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
    static WILL_REENTER: Cell<bool> = const { Cell::new(false) };
}
struct Abandoned;
struct Alarm {
    woken: Mutex<bool>,
    cv: Condvar,
}
impl Wake for Alarm {
    fn wake(self: Arc<Self>) {
        *self.woken.lock().unwrap() = true;
        self.cv.notify_all();
    }
}

/// Runs a future to its end.  A future that waits without having arranged for anyone to wake it is
/// never going to end: that is a failure, not a reason to hang.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut before = BEFORE.with(|b| b.borrow_mut().take());
    let alarm = Arc::new(Alarm { woken: Mutex::new(false), cv: Condvar::new() });
    let waker = alarm.clone().into();
    let mut cx = Context::from_waker(&waker);
    let mut f = pin!(f);
    let mut polls = 0u64;
    loop {
        if let Some(b) = &mut before {
            if b(polls) == Then::Abandon {
                resume_unwind(Box::new(Abandoned));
            }
        }
        polls += 1;
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(r) => return r,
            Poll::Pending => {
                let (mut w, t) = alarm.cv.wait_timeout_while(alarm.woken.lock().unwrap(), Duration::from_secs(10), |w| !*w).unwrap();
                assert!(!t.timed_out(), "the operation's future waits, but nothing is going to wake it");
                assert!(polls < 1_000_000, "the operation's future does not come to an end");
                *w = false;
            }
        }
    }
}
/// Runs `f` with `before` called whenever its (first) bulk operation's future is about to be polled,
/// with the number of times it has been.  None: the future was abandoned.
pub fn with_future<T>(before: impl FnMut(u64) -> Then + 'static, f: impl FnOnce() -> T) -> Option<T> {
    BEFORE.with(|b| *b.borrow_mut() = Some(Box::new(before)));
    let r = catch_unwind(AssertUnwindSafe(f));
    BEFORE.with(|b| *b.borrow_mut() = None);
    match r {
        Ok(t) => Some(t),
        Err(p) if p.is::<Abandoned>() => None,
        Err(p) => resume_unwind(p as Box<dyn Any + Send>),
    }
}

/// Runs `f` with `inner` called from within every callback the library makes on this thread, except
/// those it makes on behalf of `inner` itself.
pub fn with_reentry<T>(inner: impl FnMut() + 'static, f: impl FnOnce() -> T) -> T {
    REENTER.with(|r| *r.borrow_mut() = Some(Box::new(inner)));
    WILL_REENTER.with(|w| w.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    WILL_REENTER.with(|w| w.set(false));
    REENTER.with(|r| *r.borrow_mut() = None);
    r.unwrap_or_else(|p| resume_unwind(p))
}
pub fn called_back() {
    if WILL_REENTER.with(|w| w.replace(false)) {
        let Some(mut inner) = REENTER.with(|r| r.borrow_mut().take()) else { return };
        inner();
        REENTER.with(|r| *r.borrow_mut() = Some(inner));
        WILL_REENTER.with(|w| w.set(true));
    }
}
