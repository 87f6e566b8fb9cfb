//! Stands in for `std` in the code under test (C14): the same items, but the synchronisation
//! primitives hand control to a scheduler that decides which thread runs next. The operations
//! themselves are those of the real std; they are only reached when they cannot block.
#![allow(warnings)]
pub use std::*;

/// The controlled scheduler: one thread runs at a time; every operation on a primitive is a point
/// where another thread may be chosen.
pub mod sched {
    use std::cell::Cell;
    use std::collections::{HashMap, HashSet};
    use std::sync::{Condvar, Mutex};

    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum St {
        Ready,
        /// gave up its turn (spinning): only chosen when somebody else has run
        Yielded,
        Blocked(usize),
        Done,
    }
    #[derive(Default)]
    pub struct S {
        pub active: bool,
        pub cur: usize,
        pub status: Vec<St>,
        /// resource -> readers or one writer (usize::MAX marks a writer)
        held: Option<HashMap<usize, usize>>,
        pub prefix: Vec<u8>,
        /// (number of enabled threads, choice, is the first one the running thread)
        pub trace: Vec<(u8, u8, bool)>,
        pub points: u64,
        pub stuck: Option<String>,
        pub on_stuck: Option<fn(&S) -> !>,
    }
    static S_: Mutex<Option<S>> = Mutex::new(None);
    static CV: Condvar = Condvar::new();
    thread_local! { static ME: Cell<Option<usize>> = const { Cell::new(None) }; }
    pub const LIMIT: u64 = 20000;

    pub fn start(n: usize, prefix: Vec<u8>, on_stuck: fn(&S) -> !) {
        *S_.lock().unwrap() = Some(S {
            active: true,
            cur: usize::MAX,
            status: vec![St::Ready; n],
            held: Some(HashMap::new()),
            prefix,
            on_stuck: Some(on_stuck),
            ..S::default()
        });
    }
    /// Called by a controlled thread before anything else. The first to run is chosen when all are there.
    pub fn enter(me: usize, all: usize, arrived: &std::sync::atomic::AtomicUsize) {
        ME.with(|m| m.set(Some(me)));
        let mut g = S_.lock().unwrap();
        if arrived.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1 == all {
            let s = g.as_mut().unwrap();
            pick(s, None);
            CV.notify_all();
        }
        while g.as_ref().unwrap().cur != me {
            g = CV.wait(g).unwrap();
        }
    }
    pub fn leave() {
        let me = ME.with(|m| m.replace(None)).unwrap();
        let mut g = S_.lock().unwrap();
        let s = g.as_mut().unwrap();
        s.status[me] = St::Done;
        if s.status.iter().all(|x| *x == St::Done) {
            s.active = false;
        } else {
            pick(s, Some(me));
        }
        CV.notify_all();
    }
    pub fn finish() -> S {
        S_.lock().unwrap().take().unwrap()
    }
    fn pick(s: &mut S, me: Option<usize>) {
        s.points += 1;
        let mut en: Vec<usize> = vec![];
        if let Some(me) = me {
            if s.status[me] == St::Ready {
                en.push(me);
            }
        }
        let first = !en.is_empty();
        for i in 0..s.status.len() {
            if s.status[i] == St::Ready && Some(i) != me {
                en.push(i);
            }
        }
        if en.is_empty() {
            // spinning threads may go on when nobody else can
            for i in 0..s.status.len() {
                if s.status[i] == St::Yielded {
                    s.status[i] = St::Ready;
                    en.push(i);
                }
            }
        }
        if en.is_empty() || s.points > LIMIT {
            s.stuck = Some(if en.is_empty() { format!("deadlock: {:?}", s.status) } else { "no progress".into() });
            (s.on_stuck.unwrap())(s);
        }
        let c = if en.len() == 1 {
            0
        } else {
            let k = s.trace.len();
            let c = if k < s.prefix.len() { s.prefix[k] as usize } else { 0 };
            s.trace.push((en.len() as u8, c as u8, first));
            c
        };
        s.cur = en[c];
        for i in 0..s.status.len() {
            if s.status[i] == St::Yielded && i != s.cur {
                s.status[i] = St::Ready;
            }
        }
    }
    fn switch(me: usize, st: St) {
        let mut g = S_.lock().unwrap();
        let s = g.as_mut().unwrap();
        s.status[me] = st;
        pick(s, Some(me));
        if s.cur == me {
            s.status[me] = St::Ready;
            return;
        }
        CV.notify_all();
        while g.as_ref().unwrap().cur != me {
            g = CV.wait(g).unwrap();
        }
        let s = g.as_mut().unwrap();
        if s.status[me] == St::Yielded {
            s.status[me] = St::Ready;
        }
    }
    fn me() -> Option<usize> {
        ME.try_with(|m| m.get()).ok().flatten()
    }
    /// Any other thread may run here.
    pub fn point() {
        if let Some(m) = me() {
            switch(m, St::Ready);
        }
    }
    /// Another thread should run here.
    pub fn spin() {
        if let Some(m) = me() {
            switch(m, St::Yielded);
        }
    }
    fn with<R>(f: impl FnOnce(&mut HashMap<usize, usize>) -> R) -> R {
        f(S_.lock().unwrap().as_mut().unwrap().held.as_mut().unwrap())
    }
    pub fn acquire(a: usize, shared: bool) {
        let Some(m) = me() else { return };
        point();
        while !try_now(a, shared) {
            switch(m, St::Blocked(a));
        }
    }
    fn try_now(a: usize, shared: bool) -> bool {
        with(|h| {
            let n = h.get(&a).copied().unwrap_or(0);
            if shared && n != usize::MAX {
                h.insert(a, n + 1);
                true
            } else if n == 0 {
                h.insert(a, usize::MAX);
                true
            } else {
                false
            }
        })
    }
    pub fn try_acquire(a: usize, shared: bool) -> bool {
        if me().is_none() {
            return true;
        }
        point();
        try_now(a, shared)
    }
    pub fn release(a: usize) {
        if me().is_none() {
            return;
        }
        with(|h| {
            let n = h[&a];
            if n == usize::MAX || n == 1 {
                h.remove(&a);
            } else {
                h.insert(a, n - 1);
            }
        });
        wake(a, usize::MAX);
    }
    pub fn wake(a: usize, mut n: usize) {
        if me().is_none() {
            return;
        }
        let mut g = S_.lock().unwrap();
        for s in g.as_mut().unwrap().status.iter_mut() {
            if *s == St::Blocked(a) && n > 0 {
                *s = St::Ready;
                n -= 1;
            }
        }
    }
    pub fn block(a: usize) {
        if let Some(m) = me() {
            switch(m, St::Blocked(a));
        }
    }
    pub fn controlled() -> bool {
        me().is_some()
    }
    pub struct Held(pub usize);
    impl Drop for Held {
        fn drop(&mut self) {
            release(self.0)
        }
    }
    pub fn hold(a: usize) -> Held {
        acquire(a, false);
        Held(a)
    }
}

pub mod hint {
    pub use std::hint::*;
    pub fn spin_loop() {
        crate::sched::spin()
    }
}
pub mod thread {
    pub use std::thread::*;
    pub fn yield_now() {
        crate::sched::spin();
        std::thread::yield_now()
    }
    pub fn sleep(_: std::time::Duration) {
        crate::sched::spin()
    }
}

pub mod sync {
    pub use std::sync::*;
    use crate::sched::{self, acquire, hold, point, release};
    use std::fmt;
    use std::mem::ManuallyDrop;
    use std::ops::{Deref, DerefMut};
    use std::sync as real;

    pub struct OnceLock<T>(real::OnceLock<T>);
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            Self(real::OnceLock::new())
        }
        fn a(&self) -> usize {
            self as *const _ as *const u8 as usize
        }
        pub fn get(&self) -> Option<&T> {
            point();
            self.0.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.0.get_mut()
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            point();
            let _h = hold(self.a());
            self.0.set(v)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            point();
            if let Some(x) = self.0.get() {
                return x;
            }
            let _h = hold(self.a());
            self.0.get_or_init(f)
        }
        pub fn into_inner(self) -> Option<T> {
            self.0.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.0.take()
        }
        pub fn wait(&self) -> &T {
            loop {
                if let Some(x) = self.get() {
                    return x;
                }
                sched::spin();
            }
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: Clone> Clone for OnceLock<T> {
        fn clone(&self) -> Self {
            Self(self.0.clone())
        }
    }
    impl<T> From<T> for OnceLock<T> {
        fn from(v: T) -> Self {
            Self(v.into())
        }
    }
    impl<T: PartialEq> PartialEq for OnceLock<T> {
        fn eq(&self, o: &Self) -> bool {
            self.0 == o.0
        }
    }

    pub struct Once(real::Once);
    impl Once {
        pub const fn new() -> Self {
            Self(real::Once::new())
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            point();
            if self.0.is_completed() {
                return;
            }
            let _h = hold(self as *const _ as usize);
            self.0.call_once(f)
        }
        pub fn call_once_force<F: FnOnce(&real::OnceState)>(&self, f: F) {
            point();
            if self.0.is_completed() {
                return;
            }
            let _h = hold(self as *const _ as usize);
            self.0.call_once_force(f)
        }
        pub fn is_completed(&self) -> bool {
            point();
            self.0.is_completed()
        }
    }

    pub struct LazyLock<T, F = fn() -> T>(real::LazyLock<T, F>);
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            Self(real::LazyLock::new(f))
        }
        pub fn force(this: &Self) -> &T {
            let _h = hold(this as *const _ as *const u8 as usize);
            real::LazyLock::force(&this.0)
        }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }

    pub struct Mutex<T: ?Sized>(real::Mutex<T>);
    pub struct MutexGuard<'a, T: ?Sized>(ManuallyDrop<real::MutexGuard<'a, T>>, &'a Mutex<T>);
    fn wrap<G, H>(r: real::LockResult<G>, f: impl FnOnce(G) -> H) -> real::LockResult<H> {
        match r {
            Ok(g) => Ok(f(g)),
            Err(e) => Err(real::PoisonError::new(f(e.into_inner()))),
        }
    }
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self {
            Self(real::Mutex::new(v))
        }
        pub fn into_inner(self) -> real::LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        fn a(&self) -> usize {
            &self.0 as *const _ as *const u8 as usize
        }
        pub fn lock(&self) -> real::LockResult<MutexGuard<'_, T>> {
            acquire(self.a(), false);
            wrap(self.0.lock(), |g| MutexGuard(ManuallyDrop::new(g), self))
        }
        pub fn try_lock(&self) -> real::TryLockResult<MutexGuard<'_, T>> {
            if !sched::try_acquire(self.a(), false) {
                return Err(real::TryLockError::WouldBlock);
            }
            match self.0.try_lock() {
                Ok(g) => Ok(MutexGuard(ManuallyDrop::new(g), self)),
                Err(real::TryLockError::Poisoned(e)) => Err(real::TryLockError::Poisoned(real::PoisonError::new(MutexGuard(ManuallyDrop::new(e.into_inner()), self)))),
                Err(e) => {
                    release(self.a());
                    Err(real::TryLockError::WouldBlock)
                }
            }
        }
        pub fn get_mut(&mut self) -> real::LockResult<&mut T> {
            self.0.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.0.clear_poison()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T: fmt::Debug> fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: ?Sized> Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.0
        }
    }
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.0
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            unsafe { ManuallyDrop::drop(&mut self.0) };
            release(self.1.a());
        }
    }

    pub struct RwLock<T: ?Sized>(real::RwLock<T>);
    pub struct RwLockReadGuard<'a, T: ?Sized>(ManuallyDrop<real::RwLockReadGuard<'a, T>>, &'a RwLock<T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(ManuallyDrop<real::RwLockWriteGuard<'a, T>>, &'a RwLock<T>);
    impl<T> RwLock<T> {
        pub const fn new(v: T) -> Self {
            Self(real::RwLock::new(v))
        }
        pub fn into_inner(self) -> real::LockResult<T> {
            self.0.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        fn a(&self) -> usize {
            &self.0 as *const _ as *const u8 as usize
        }
        pub fn read(&self) -> real::LockResult<RwLockReadGuard<'_, T>> {
            acquire(self.a(), true);
            wrap(self.0.read(), |g| RwLockReadGuard(ManuallyDrop::new(g), self))
        }
        pub fn write(&self) -> real::LockResult<RwLockWriteGuard<'_, T>> {
            acquire(self.a(), false);
            wrap(self.0.write(), |g| RwLockWriteGuard(ManuallyDrop::new(g), self))
        }
        pub fn get_mut(&mut self) -> real::LockResult<&mut T> {
            self.0.get_mut()
        }
        pub fn is_poisoned(&self) -> bool {
            self.0.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.0.clear_poison()
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    macro_rules! rw {
        ($($t:ident)*) => { $(
            impl<T: ?Sized> Deref for $t<'_, T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
            impl<T: ?Sized> Drop for $t<'_, T> { fn drop(&mut self) { unsafe { ManuallyDrop::drop(&mut self.0) }; release(self.1.a()); } }
        )* };
    }
    rw!(RwLockReadGuard RwLockWriteGuard);
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.0
        }
    }

    pub struct Condvar(real::Condvar);
    impl Condvar {
        pub const fn new() -> Self {
            Self(real::Condvar::new())
        }
        pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> real::LockResult<MutexGuard<'a, T>> {
            let m = g.1;
            drop(g);
            sched::block(self as *const _ as usize);
            m.lock()
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> real::LockResult<MutexGuard<'a, T>> {
            while f(&mut g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        pub fn notify_one(&self) {
            sched::wake(self as *const _ as usize, 1)
        }
        pub fn notify_all(&self) {
            sched::wake(self as *const _ as usize, usize::MAX)
        }
    }

    pub mod atomic {
        use crate::sched::point;
        pub use std::sync::atomic::*;
        use std::sync::atomic as real;
        macro_rules! base {
            ($n:ident [$($g:ident)*] $t:ty) => {
                #[repr(transparent)]
                pub struct $n $(<$g>)* (real::$n $(<$g>)*);
                impl $(<$g>)* $n $(<$g>)* {
                    pub const fn new(v: $t) -> Self { Self(real::$n::new(v)) }
                    pub fn load(&self, o: Ordering) -> $t { point(); self.0.load(o) }
                    pub fn store(&self, v: $t, o: Ordering) { point(); self.0.store(v, o) }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t { point(); self.0.swap(v, o) }
                    pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { point(); self.0.compare_exchange(a, b, o, p) }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> { point(); self.0.compare_exchange(a, b, o, p) }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> { point(); self.0.fetch_update(o, p, f) }
                    pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                    pub fn into_inner(self) -> $t { self.0.into_inner() }
                }
                impl $(<$g>)* std::fmt::Debug for $n $(<$g>)* { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.fmt(f) } }
            };
        }
        base!(AtomicBool [] bool);
        base!(AtomicPtr [T] *mut T);
        impl AtomicBool {
            pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { point(); self.0.fetch_and(v, o) }
            pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { point(); self.0.fetch_or(v, o) }
            pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { point(); self.0.fetch_xor(v, o) }
        }
        impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }
        impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(std::ptr::null_mut()) } }
        macro_rules! ints {
            ($($n:ident $t:ty;)*) => { $(
                base!($n [] $t);
                impl Default for $n { fn default() -> Self { Self::new(0) } }
                impl $n {
                    pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_add(v, o) }
                    pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_sub(v, o) }
                    pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_and(v, o) }
                    pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_or(v, o) }
                    pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_max(v, o) }
                    pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_min(v, o) }
                }
            )* };
        }
        ints!(AtomicU8 u8; AtomicU16 u16; AtomicU32 u32; AtomicU64 u64; AtomicUsize usize; AtomicI8 i8; AtomicI16 i16; AtomicI32 i32; AtomicI64 i64; AtomicIsize isize;);
        pub fn fence(o: Ordering) { point(); real::fence(o) }
    }
}
