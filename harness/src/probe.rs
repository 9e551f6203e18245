//! Instrumented keys and values.
//!
//! Every instance registers with the case's `Ctx`: the context knows which instances are alive,
//! notices a second drop or a use after drop, counts clones and comparisons, bounds the amount of
//! user-visible work, and can make the n-th callback panic (fault injection).
use hash_trie::traits::{HashLike, HasherBv};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::mem::ManuallyDrop;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Default)]
struct Inner {
    alive: Vec<bool>,
    errors: Vec<String>,
    live_keys: i64,
    live_vals: i64,
}
pub struct Ctx {
    inner: Mutex<Inner>,
    pub eqs: AtomicU64,
    pub key_clones: AtomicU64,
    pub val_clones: AtomicU64,
    pub hashes: AtomicU64,
    /// Conversions of look-alike keys, and of look-alike values.
    pub turned: [AtomicU64; 2],
    pub work: AtomicU64,
    panic_at: AtomicI64,
    owner: Mutex<Option<std::thread::ThreadId>>,
    watching: AtomicBool,
    foreign: AtomicBool,
}
pub const WORK_LIMIT: u64 = 20_000_000;
pub const INJECTED: &str = "injected panic";

impl Ctx {
    pub fn new() -> Arc<Ctx> {
        // Recent contexts outlive their cases, so that an instance dropped late or twice still
        // finds its own.
        thread_local! { static RECENT: std::cell::RefCell<std::collections::VecDeque<Arc<Ctx>>> = const { std::cell::RefCell::new(std::collections::VecDeque::new()) } }
        let ctx = Ctx::fresh();
        RECENT.with(|r| {
            let mut r = r.borrow_mut();
            r.push_back(ctx.clone());
            if r.len() > 16 {
                r.pop_front();
            }
        });
        ctx
    }
    fn fresh() -> Arc<Ctx> {
        Arc::new(Ctx {
            inner: Mutex::new(Inner::default()),
            eqs: AtomicU64::new(0),
            key_clones: AtomicU64::new(0),
            val_clones: AtomicU64::new(0),
            hashes: AtomicU64::new(0),
            turned: Default::default(),
            work: AtomicU64::new(0),
            panic_at: AtomicI64::new(-1),
            owner: Mutex::new(None),
            watching: AtomicBool::new(false),
            foreign: AtomicBool::new(false),
        })
    }
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn error(&self, s: impl Into<String>) {
        let mut g = self.lock();
        if g.errors.len() < 8 {
            g.errors.push(s.into())
        }
    }
    /// No double drop, use after drop or corrupted instance so far.
    pub fn sound(&self) -> Result<(), String> {
        if STRAY.swap(false, Relaxed) {
            return Err("something was dropped that is no instance, or no longer one".into());
        }
        match self.lock().errors.first() {
            None => Ok(()),
            Some(e) => Err(e.clone()),
        }
    }
    pub fn live(&self) -> (i64, i64) {
        let g = self.lock();
        (g.live_keys, g.live_vals)
    }
    /// A callback of the user's happened: count it, bound it, and fail it if its turn has come.
    pub fn tick(&self) {
        crate::sched::point();
        crate::exec::called_back();
        if self.work.fetch_add(1, Relaxed) > WORK_LIMIT {
            self.work.store(0, Relaxed);
            panic!("work bound exceeded: the operation keeps calling back without end");
        }
        if self.watching.load(Relaxed) && *self.owner.lock().unwrap_or_else(|e| e.into_inner()) != Some(std::thread::current().id()) {
            self.foreign.store(true, Relaxed);
        }
        if self.panic_at.load(Relaxed) >= 0 && self.panic_at.fetch_sub(1, Relaxed) == 0 {
            panic!("{}", INJECTED);
        }
    }
    /// Start (or stop) noticing callbacks on threads other than this one; says whether there were any.
    pub fn watch_threads(&self, on: bool) -> bool {
        *self.owner.lock().unwrap_or_else(|e| e.into_inner()) = Some(std::thread::current().id());
        self.watching.store(on, Relaxed);
        self.foreign.swap(false, Relaxed)
    }
    pub fn conversions(&self) -> (u64, u64) {
        (self.turned[0].swap(0, Relaxed), self.turned[1].swap(0, Relaxed))
    }
    pub fn arm(&self, n: Option<u32>) {
        self.panic_at.store(n.map_or(-1, |n| n as i64), Relaxed)
    }
    pub fn armed(&self) -> bool {
        self.panic_at.load(Relaxed) >= 0
    }
}

const GOOD: u64 = 0x600D_C0DE_600D_C0DE;
const GONE: u64 = 0xDEAD_C0DE_DEAD_C0DE;
/// Something was dropped that is not (or no longer) an instance.
static STRAY: AtomicBool = AtomicBool::new(false);
pub struct Probe {
    magic: u64,
    serial: u32,
    is_key: bool,
    /// Released by the first drop only: a second drop is to be reported, not to do harm.
    pub ctx: ManuallyDrop<Arc<Ctx>>,
}
impl Probe {
    fn new(ctx: &Arc<Ctx>, is_key: bool) -> Probe {
        let serial = {
            let mut g = ctx.lock();
            g.alive.push(true);
            if is_key {
                g.live_keys += 1
            } else {
                g.live_vals += 1
            }
            (g.alive.len() - 1) as u32
        };
        Probe { magic: GOOD, serial, is_key, ctx: ManuallyDrop::new(ctx.clone()) }
    }
    fn hashed(&self) {
        self.touch("hash");
        self.ctx.hashes.fetch_add(1, Relaxed);
        self.ctx.tick();
    }
    fn touch(&self, what: &str) {
        if self.magic != GOOD {
            // Do not follow a pointer out of a corrupted instance.
            panic!("{what}: instance is corrupt or already dropped");
        }
        if !self.ctx.lock().alive[self.serial as usize] {
            self.ctx.error(format!("{what}: instance used after it was dropped"));
        }
    }
    fn dup(&self) -> Probe {
        self.touch("clone");
        self.ctx.tick();
        Probe::new(&self.ctx, self.is_key)
    }
}
impl Drop for Probe {
    fn drop(&mut self) {
        if self.magic != GOOD {
            // Nothing in a corrupt instance can be trusted, its context least of all.
            if self.magic != GONE {
                STRAY.store(true, Relaxed);
                return;
            }
        }
        let mut g = self.ctx.lock();
        let s = self.serial as usize;
        if self.magic != GOOD || !g.alive[s] {
            g.errors.push("an instance was dropped twice".into());
            return;
        }
        g.alive[s] = false;
        if self.is_key {
            g.live_keys -= 1
        } else {
            g.live_vals -= 1
        }
        drop(g);
        self.magic = GONE;
        unsafe { ManuallyDrop::drop(&mut self.ctx) }
    }
}

/// Equality and hash look at `id` and `h`; `tag` tells equal instances apart.
pub struct Key<const T: u8> {
    pub id: u32,
    pub tag: u32,
    pub h: u128,
    probe: Probe,
}
impl<const T: u8> Key<T> {
    pub fn new(ctx: &Arc<Ctx>, id: u32, tag: u32, h: u128) -> Self {
        Key { id, tag, h, probe: Probe::new(ctx, true) }
    }
    pub fn touch(&self) {
        self.probe.touch("key")
    }
    pub fn ctx(&self) -> &Arc<Ctx> {
        &self.probe.ctx
    }
    pub fn retyped<const U: u8>(&self, tag: u32) -> Key<U> {
        Key::new(&self.probe.ctx, self.id, tag, self.h)
    }
}
impl<const T: u8> Clone for Key<T> {
    fn clone(&self) -> Self {
        let probe = self.probe.dup();
        probe.ctx.key_clones.fetch_add(1, Relaxed);
        Key { id: self.id, tag: self.tag, h: self.h, probe }
    }
}
impl<const T: u8> Default for Key<T> {
    /// Required by a blanket implementation's bound; never called.
    fn default() -> Self {
        unreachable!("the library has no business making default keys")
    }
}
impl<const A: u8, const B: u8> PartialEq<Key<B>> for Key<A> {
    fn eq(&self, o: &Key<B>) -> bool {
        self.probe.touch("key comparison");
        o.probe.touch("key comparison");
        self.probe.ctx.eqs.fetch_add(1, Relaxed);
        self.probe.ctx.tick();
        self.id == o.id
    }
}
impl<const T: u8> Eq for Key<T> {}
impl<const T: u8> Hash for Key<T> {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.probe.hashed();
        s.write_u64(self.h as u64)
    }
}
impl<const T: u8> fmt::Debug for Key<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "k{}#{}", self.id, self.tag)
    }
}
impl HashLike<Key<1>> for Key<0> {}
impl HashLike<Key<0>> for Key<1> {}
impl HashLike<Key<2>> for Key<0> {}
impl HashLike<Key<0>> for Key<2> {}
impl HashLike<Key<2>> for Key<1> {}
impl HashLike<Key<1>> for Key<2> {}
impl From<Key<1>> for Key<0> {
    fn from(k: Key<1>) -> Key<0> {
        k.probe.ctx.turned[0].fetch_add(1, Relaxed);
        k.probe.ctx.tick();
        Key::new(&k.probe.ctx, k.id, k.tag, k.h)
    }
}

pub struct Val<const T: u8> {
    pub x: u64,
    probe: Probe,
}
impl<const T: u8> Val<T> {
    pub fn new(ctx: &Arc<Ctx>, x: u64) -> Self {
        Val { x, probe: Probe::new(ctx, false) }
    }
    pub fn touch(&self) {
        self.probe.touch("value")
    }
    pub fn ctx(&self) -> &Arc<Ctx> {
        &self.probe.ctx
    }
}
impl<const T: u8> Clone for Val<T> {
    fn clone(&self) -> Self {
        let probe = self.probe.dup();
        probe.ctx.val_clones.fetch_add(1, Relaxed);
        Val { x: self.x, probe }
    }
}
impl<const T: u8> fmt::Debug for Val<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "v{}", self.x)
    }
}
impl From<Val<1>> for Val<0> {
    fn from(v: Val<1>) -> Val<0> {
        v.probe.ctx.turned[1].fetch_add(1, Relaxed);
        v.probe.ctx.tick();
        Val::new(&v.probe.ctx, v.x)
    }
}

/// Hands the library exactly the hash bits the case chose for the key, cut to the hash word.
#[derive(Clone, Debug, Default)]
pub struct Bits;
/// An ordinary hasher: goes through the library's own adaptation of `core::hash::Hasher`.
/// (`fnv::FnvHasher` itself is not `Clone`, so the containers over it are not either.)
#[derive(Default)]
pub struct Fnv(fnv::FnvHasher);
impl Clone for Fnv {
    fn clone(&self) -> Self {
        Fnv(fnv::FnvHasher::with_key(self.0.finish()))
    }
}
impl fmt::Debug for Fnv {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Fnv")
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0.finish()
    }
    fn write(&mut self, b: &[u8]) {
        self.0.write(b)
    }
}
macro_rules! bits_impl {
    ($($t:ty),*) => { $( impl<const T: u8> HasherBv<$t, Key<T>> for Bits {
        fn hash(&self, k: &Key<T>) -> $t { k.probe.hashed(); k.h as $t }
    } )* };
}
bits_impl!(u8, u16, u32, u64, u128, usize);
