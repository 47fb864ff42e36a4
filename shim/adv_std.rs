//! A stand-in for `std` under which the library under test is compiled (see bin/vlib.py build_sched):
//! everything is std's, except that locks and atomics ask a scheduler before they act.
//! Threads not started by `sched::run` are not scheduled.
#![allow(ambiguous_glob_reexports, clippy::all)]
pub use ::std::*;

pub mod sched {
    use ::std::cell::Cell;
    use ::std::sync::{Arc, Condvar, Mutex};
    use ::std::time::Duration;

    thread_local!(static ME: Cell<Option<usize>> = const { Cell::new(None) });

    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Status {
        Ready,
        Blocked(usize),
        /// blocked on something we do not control
        External,
        Done,
    }

    /// one scheduling decision: the threads that could run, the one that did, the one running before
    #[derive(Clone, Debug)]
    pub struct Choice {
        pub enabled: Vec<usize>,
        pub chosen: usize,
        pub before: Option<usize>,
    }

    #[derive(Clone, Debug)]
    pub enum Policy {
        /// follow the prefix, then keep running the same thread
        Prefix(Vec<usize>),
        /// priorities with the given seed and number of change points
        Pct(u64, usize, usize),
        Random(u64),
    }

    struct State {
        status: Vec<Status>,
        active: Option<usize>,
        choices: Vec<Choice>,
        policy: Policy,
        prio: Vec<i64>,
        changes: Vec<usize>,
        rng: u64,
        stuck: Option<String>,
        started: bool,
    }

    struct World {
        m: Mutex<State>,
        cv: Vec<Condvar>,
        end: Condvar,
    }

    static WORLD: Mutex<Option<Arc<World>>> = Mutex::new(None);
    thread_local!(static MINE: ::std::cell::RefCell<Option<Arc<World>>> = const { ::std::cell::RefCell::new(None) });

    fn world() -> Option<Arc<World>> {
        MINE.try_with(|w| w.borrow().clone()).ok().flatten()
    }

    pub fn current() -> Option<usize> {
        ME.try_with(|m| m.get()).ok().flatten()
    }

    fn next_rand(s: &mut u64) -> u64 {
        *s ^= *s << 13;
        *s ^= *s >> 7;
        *s ^= *s << 17;
        *s
    }

    const LIMIT: usize = 20_000;

    impl World {
        fn pick(&self, st: &mut State, before: Option<usize>, avoid: bool) {
            let mut enabled: Vec<usize> = (0..st.status.len()).filter(|t| st.status[*t] == Status::Ready).collect();
            if enabled.is_empty() {
                st.active = None;
                if st.status.iter().all(|s| *s == Status::Done) {
                    self.end.notify_all();
                } else if !st.status.contains(&Status::External) {
                    st.stuck = Some(format!("deadlock: {:?}", st.status));
                    self.end.notify_all();
                }
                return;
            }
            if avoid && enabled.len() > 1 {
                enabled.retain(|t| Some(*t) != before);
            }
            let k = st.choices.len();
            if k > LIMIT {
                st.stuck = Some(format!("no progress after {k} steps: {:?}", st.status));
                self.end.notify_all();
                return;
            }
            let keep = before.filter(|b| enabled.contains(b)).unwrap_or(enabled[0]);
            let chosen = if k > LIMIT / 2 {
                // fair
                let b = before.unwrap_or(0);
                *enabled.iter().find(|t| **t > b).unwrap_or(&enabled[0])
            } else {
                match &st.policy {
                    Policy::Prefix(p) => match p.get(k) {
                        Some(c) if enabled.contains(c) => *c,
                        _ => keep,
                    },
                    Policy::Random(_) => enabled[(next_rand(&mut st.rng) % enabled.len() as u64) as usize],
                    Policy::Pct(..) => {
                        if st.changes.contains(&k) {
                            let low = st.prio.iter().min().unwrap() - 1;
                            st.prio[keep] = low;
                        }
                        *enabled.iter().max_by_key(|t| st.prio[**t]).unwrap()
                    }
                }
            };
            st.choices.push(Choice { enabled, chosen, before });
            st.active = Some(chosen);
            self.cv[chosen].notify_all();
        }

        fn wait_turn(&self, me: usize) {
            let mut st = self.m.lock().unwrap();
            while st.active != Some(me) || !st.started {
                st = self.cv[me].wait(st).unwrap();
            }
        }
    }

    /// somewhere another thread may run
    pub fn point() {
        step(false)
    }
    /// like `point`, but another thread runs if one can
    pub fn pause() {
        step(true)
    }
    static FREE: ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
    /// threads that are not scheduled call this around locks and atomics
    pub fn set_free(f: fn()) {
        FREE.store(f as usize, ::std::sync::atomic::Ordering::SeqCst);
    }
    fn free() {
        let p = FREE.load(::std::sync::atomic::Ordering::Relaxed);
        if p != 0 {
            let f: fn() = unsafe { ::std::mem::transmute(p) };
            f()
        }
    }
    fn step(avoid: bool) {
        let (Some(me), Some(w)) = (current(), world()) else {
            free();
            return;
        };
        {
            let mut st = w.m.lock().unwrap();
            st.status[me] = Status::Ready;
            if st.active == Some(me) || st.active.is_none() {
                w.pick(&mut st, Some(me), avoid);
            }
        }
        w.wait_turn(me);
    }
    /// until `wake(what)`
    pub fn block_on(what: usize) {
        let (Some(me), Some(w)) = (current(), world()) else {
            ::std::thread::yield_now();
            return;
        };
        {
            let mut st = w.m.lock().unwrap();
            st.status[me] = Status::Blocked(what);
            w.pick(&mut st, Some(me), false);
        }
        w.wait_turn(me);
    }
    pub fn wake(what: usize) {
        let Some(w) = world() else {
            free();
            return;
        };
        let mut st = w.m.lock().unwrap();
        for s in st.status.iter_mut() {
            if *s == Status::Blocked(what) {
                *s = Status::Ready;
            }
        }
    }
    pub fn scheduled() -> bool {
        current().is_some()
    }

    /// runs the bodies to completion under the policy; the scheduling decisions, or how they got stuck
    pub fn run(policy: Policy, bodies: Vec<Box<dyn FnOnce() + Send>>) -> (Vec<Choice>, Option<String>) {
        let n = bodies.len();
        let mut rng = match policy {
            Policy::Pct(s, ..) | Policy::Random(s) => s.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            _ => 1,
        };
        let mut prio: Vec<i64> = (0..n as i64).collect();
        let mut changes = Vec::new();
        if let Policy::Pct(_, depth, len) = policy {
            for i in (1..n).rev() {
                prio.swap(i, (next_rand(&mut rng) % (i as u64 + 1)) as usize);
            }
            for _ in 0..depth {
                changes.push((next_rand(&mut rng) % len.max(1) as u64) as usize);
            }
        }
        let w = Arc::new(World {
            m: Mutex::new(State {
                status: vec![Status::Ready; n],
                active: None,
                choices: Vec::new(),
                policy,
                prio,
                changes,
                rng,
                stuck: None,
                started: false,
            }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
            end: Condvar::new(),
        });
        *WORLD.lock().unwrap() = Some(w.clone());
        let mut joins = Vec::new();
        for (t, b) in bodies.into_iter().enumerate() {
            let w = w.clone();
            joins.push(::std::thread::spawn(move || {
                ME.with(|m| m.set(Some(t)));
                MINE.with(|m| *m.borrow_mut() = Some(w.clone()));
                w.wait_turn(t);
                let _ = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(b));
                let mut st = w.m.lock().unwrap();
                st.status[t] = Status::Done;
                ME.with(|m| m.set(None));
                MINE.with(|m| *m.borrow_mut() = None);
                w.pick(&mut st, Some(t), false);
            }));
        }
        let mut st = w.m.lock().unwrap();
        st.started = true;
        w.pick(&mut st, None, false);
        let (mut seen, mut idle) = (0, 0);
        while st.stuck.is_none() && !st.status.iter().all(|s| *s == Status::Done) {
            let (s, t) = w.end.wait_timeout(st, Duration::from_millis(500)).unwrap();
            st = s;
            if t.timed_out() {
                // the running thread may be blocked on something the scheduler does not know
                idle = if st.choices.len() == seen { idle + 1 } else { 0 };
                seen = st.choices.len();
                if idle >= 4 {
                    if let Some(a) = st.active {
                        st.status[a] = Status::External;
                        w.pick(&mut st, None, false);
                        idle = 0;
                    } else if idle >= 40 {
                        st.stuck = Some(format!("deadlock outside the scheduler: {:?}", st.status));
                    }
                }
            }
        }
        let r = (st.choices.clone(), st.stuck.clone());
        drop(st);
        if r.1.is_none() {
            for j in joins {
                let _ = j.join();
            }
        }
        r
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        if crate::sched::scheduled() {
            crate::sched::pause()
        } else {
            ::std::thread::yield_now()
        }
    }
    pub fn sleep(d: ::std::time::Duration) {
        if crate::sched::scheduled() {
            crate::sched::pause()
        } else {
            ::std::thread::sleep(d)
        }
    }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        if crate::sched::scheduled() {
            crate::sched::pause()
        } else {
            ::std::hint::spin_loop()
        }
    }
}

pub mod sync {
    use crate::sched;
    use ::std::fmt;
    use ::std::mem::ManuallyDrop;
    use ::std::ops::{Deref, DerefMut};
    pub use ::std::sync::*;

    fn unpoison<A, B>(r: ::std::sync::LockResult<A>, f: impl FnOnce(A) -> B) -> ::std::sync::LockResult<B> {
        match r {
            Ok(g) => Ok(f(g)),
            Err(e) => Err(PoisonError::new(f(e.into_inner()))),
        }
    }

    macro_rules! guard {
        ($name:ident, $inner:ident, $lock:ident) => {
            #[must_use]
            pub struct $name<'a, T: ?Sized + 'a> {
                g: ManuallyDrop<::std::sync::$inner<'a, T>>,
                lock: &'a $lock<T>,
            }
            impl<'a, T: ?Sized> $name<'a, T> {
                fn make(g: ::std::sync::$inner<'a, T>, lock: &'a $lock<T>) -> Self {
                    $name { g: ManuallyDrop::new(g), lock }
                }
                #[allow(dead_code)]
                fn take(self) -> (::std::sync::$inner<'a, T>, &'a $lock<T>) {
                    let mut me = ManuallyDrop::new(self);
                    (unsafe { ManuallyDrop::take(&mut me.g) }, me.lock)
                }
            }
            impl<T: ?Sized> Drop for $name<'_, T> {
                fn drop(&mut self) {
                    unsafe { ManuallyDrop::drop(&mut self.g) };
                    sched::wake(self.lock.addr());
                }
            }
            impl<T: ?Sized> Deref for $name<'_, T> {
                type Target = T;
                fn deref(&self) -> &T {
                    &self.g
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
            impl<T: ?Sized + fmt::Display> fmt::Display for $name<'_, T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    (**self).fmt(f)
                }
            }
        };
    }
    guard!(MutexGuard, MutexGuard, Mutex);
    guard!(RwLockReadGuard, RwLockReadGuard, RwLock);
    guard!(RwLockWriteGuard, RwLockWriteGuard, RwLock);
    impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.g
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            &mut self.g
        }
    }

    macro_rules! acquire {
        ($self:ident, $guard:ident, $try:ident, $block:ident) => {{
            if !sched::scheduled() {
                sched::point();
                return unpoison($self.0.$block(), |g| $guard::make(g, $self));
            }
            sched::point();
            loop {
                match $self.0.$try() {
                    Ok(g) => return Ok($guard::make(g, $self)),
                    Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new($guard::make(e.into_inner(), $self))),
                    Err(TryLockError::WouldBlock) => sched::block_on($self.addr()),
                }
            }
        }};
    }
    macro_rules! try_acquire {
        ($self:ident, $guard:ident, $try:ident) => {{
            sched::point();
            match $self.0.$try() {
                Ok(g) => Ok($guard::make(g, $self)),
                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new($guard::make(e.into_inner(), $self)))),
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }};
    }

    macro_rules! lock_type {
        ($name:ident) => {
            #[derive(Default)]
            pub struct $name<T: ?Sized>(::std::sync::$name<T>);
            impl<T> $name<T> {
                pub const fn new(t: T) -> Self {
                    $name(::std::sync::$name::new(t))
                }
                pub fn into_inner(self) -> LockResult<T> {
                    self.0.into_inner()
                }
            }
            impl<T> From<T> for $name<T> {
                fn from(t: T) -> Self {
                    $name::new(t)
                }
            }
            impl<T: ?Sized> $name<T> {
                fn addr(&self) -> usize {
                    &self.0 as *const _ as *const u8 as usize
                }
                pub fn is_poisoned(&self) -> bool {
                    self.0.is_poisoned()
                }
                pub fn clear_poison(&self) {
                    self.0.clear_poison()
                }
                pub fn get_mut(&mut self) -> LockResult<&mut T> {
                    self.0.get_mut()
                }
            }
            impl<T: ?Sized + fmt::Debug> fmt::Debug for $name<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    self.0.fmt(f)
                }
            }
        };
    }
    lock_type!(Mutex);
    lock_type!(RwLock);
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            acquire!(self, MutexGuard, try_lock, lock)
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            try_acquire!(self, MutexGuard, try_lock)
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            acquire!(self, RwLockReadGuard, try_read, read)
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            acquire!(self, RwLockWriteGuard, try_write, write)
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            try_acquire!(self, RwLockReadGuard, try_read)
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            try_acquire!(self, RwLockWriteGuard, try_write)
        }
    }

    #[derive(Default, Debug)]
    pub struct Condvar(::std::sync::Condvar);
    impl Condvar {
        pub const fn new() -> Self {
            Condvar(::std::sync::Condvar::new())
        }
        fn addr(&self) -> usize {
            self as *const _ as usize
        }
        pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            if !sched::scheduled() {
                let (g, lock) = guard.take();
                return unpoison(self.0.wait(g), |g| MutexGuard::make(g, lock));
            }
            let lock = guard.lock;
            drop(guard);
            sched::block_on(self.addr());
            lock.lock()
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut guard: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut *guard) {
                guard = self.wait(guard)?;
            }
            Ok(guard)
        }
        pub fn notify_one(&self) {
            self.0.notify_one();
            sched::wake(self.addr());
        }
        pub fn notify_all(&self) {
            self.0.notify_all();
            sched::wake(self.addr());
        }
    }

    /// The last handles of a thing: another thread may come in between before one of them goes away.
    #[cfg(adv_arc)]
    mod arc {
        use crate::sched;
        use ::std::borrow::Borrow;
        use ::std::fmt;
        use ::std::mem::ManuallyDrop;
        use ::std::ops::Deref;
        use ::std::sync as real;

        pub struct Arc<T: ?Sized>(real::Arc<T>);
        pub struct Weak<T: ?Sized>(real::Weak<T>);
        impl<T: ?Sized> Drop for Arc<T> {
            fn drop(&mut self) {
                if real::Arc::strong_count(&self.0) <= 2 {
                    sched::point()
                }
            }
        }
        impl<T: ?Sized> Arc<T> {
            fn real(this: Self) -> real::Arc<T> {
                let mut this = ManuallyDrop::new(this);
                unsafe { ::std::ptr::read(&mut this.0) }
            }
            pub fn downgrade(this: &Self) -> Weak<T> {
                Weak(real::Arc::downgrade(&this.0))
            }
            pub fn strong_count(this: &Self) -> usize {
                sched::point();
                real::Arc::strong_count(&this.0)
            }
            pub fn weak_count(this: &Self) -> usize {
                sched::point();
                real::Arc::weak_count(&this.0)
            }
            pub fn ptr_eq(a: &Self, b: &Self) -> bool {
                real::Arc::ptr_eq(&a.0, &b.0)
            }
            pub fn as_ptr(this: &Self) -> *const T {
                real::Arc::as_ptr(&this.0)
            }
            pub fn get_mut(this: &mut Self) -> Option<&mut T> {
                sched::point();
                real::Arc::get_mut(&mut this.0)
            }
        }
        impl<T> Arc<T> {
            pub fn new(t: T) -> Self {
                Arc(real::Arc::new(t))
            }
            pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Self {
                Arc(real::Arc::new_cyclic(|w| f(&Weak(w.clone()))))
            }
            pub fn into_raw(this: Self) -> *const T {
                real::Arc::into_raw(Self::real(this))
            }
            pub unsafe fn from_raw(p: *const T) -> Self {
                Arc(real::Arc::from_raw(p))
            }
            pub fn into_inner(this: Self) -> Option<T> {
                sched::point();
                real::Arc::into_inner(Self::real(this))
            }
            pub fn try_unwrap(this: Self) -> Result<T, Self> {
                sched::point();
                real::Arc::try_unwrap(Self::real(this)).map_err(Arc)
            }
        }
        impl<T: Clone> Arc<T> {
            pub fn make_mut(this: &mut Self) -> &mut T {
                sched::point();
                real::Arc::make_mut(&mut this.0)
            }
            pub fn unwrap_or_clone(this: Self) -> T {
                sched::point();
                real::Arc::unwrap_or_clone(Self::real(this))
            }
        }
        impl<T: ?Sized> Clone for Arc<T> {
            fn clone(&self) -> Self {
                Arc(self.0.clone())
            }
        }
        impl<T: ?Sized> Deref for Arc<T> {
            type Target = T;
            fn deref(&self) -> &T {
                &self.0
            }
        }
        impl<T: ?Sized> AsRef<T> for Arc<T> {
            fn as_ref(&self) -> &T {
                &self.0
            }
        }
        impl<T: ?Sized> Borrow<T> for Arc<T> {
            fn borrow(&self) -> &T {
                &self.0
            }
        }
        impl<T> From<T> for Arc<T> {
            fn from(t: T) -> Self {
                Arc::new(t)
            }
        }
        impl<T: Default> Default for Arc<T> {
            fn default() -> Self {
                Arc::new(T::default())
            }
        }
        impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
            fn eq(&self, o: &Self) -> bool {
                self.0 == o.0
            }
        }
        impl<T: ?Sized + Eq> Eq for Arc<T> {}
        impl<T: ?Sized + ::std::hash::Hash> ::std::hash::Hash for Arc<T> {
            fn hash<H: ::std::hash::Hasher>(&self, h: &mut H) {
                self.0.hash(h)
            }
        }
        impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
        impl<T: ?Sized + fmt::Display> fmt::Display for Arc<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.0.fmt(f)
            }
        }
        impl<T> Weak<T> {
            pub const fn new() -> Self {
                Weak(real::Weak::new())
            }
        }
        impl<T: ?Sized> Weak<T> {
            pub fn upgrade(&self) -> Option<Arc<T>> {
                self.0.upgrade().map(Arc)
            }
            pub fn strong_count(&self) -> usize {
                sched::point();
                self.0.strong_count()
            }
            pub fn weak_count(&self) -> usize {
                sched::point();
                self.0.weak_count()
            }
            pub fn ptr_eq(&self, o: &Self) -> bool {
                self.0.ptr_eq(&o.0)
            }
        }
        impl<T: ?Sized> Clone for Weak<T> {
            fn clone(&self) -> Self {
                Weak(self.0.clone())
            }
        }
        impl<T> Default for Weak<T> {
            fn default() -> Self {
                Weak::new()
            }
        }
        impl<T: ?Sized> fmt::Debug for Weak<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "(Weak)")
            }
        }
    }
    #[cfg(adv_arc)]
    pub use arc::{Arc, Weak};

    pub mod atomic {
        use crate::sched;
        use ::std::fmt;
        pub use ::std::sync::atomic::*;
        pub fn fence(o: Ordering) {
            sched::point();
            ::std::sync::atomic::fence(o)
        }
        macro_rules! atomic {
            ($name:ident, $t:ty, [$($f:ident),*]) => {
                #[derive(Default)]
                pub struct $name(::std::sync::atomic::$name);
                impl $name {
                    pub const fn new(v: $t) -> Self {
                        $name(::std::sync::atomic::$name::new(v))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        sched::point();
                        self.0.load(o)
                    }
                    pub fn store(&self, v: $t, o: Ordering) {
                        sched::point();
                        self.0.store(v, o)
                    }
                    pub fn swap(&self, v: $t, o: Ordering) -> $t {
                        sched::point();
                        self.0.swap(v, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        sched::point();
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t> {
                        sched::point();
                        self.0.compare_exchange(a, b, o, p)
                    }
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, o: Ordering, p: Ordering, f: F) -> Result<$t, $t> {
                        sched::point();
                        self.0.fetch_update(o, p, f)
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                    pub fn get_mut(&mut self) -> &mut $t {
                        self.0.get_mut()
                    }
                    $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                        sched::point();
                        self.0.$f(v, o)
                    })*
                }
                impl From<$t> for $name {
                    fn from(v: $t) -> Self {
                        $name::new(v)
                    }
                }
                impl fmt::Debug for $name {
                    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                        self.0.fmt(f)
                    }
                }
            };
        }
        macro_rules! int {
            ($($name:ident $t:ty),*) => {$(atomic!($name, $t, [fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min]);)*};
        }
        int!(AtomicUsize usize, AtomicIsize isize, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64);
        atomic!(AtomicBool, bool, [fetch_and, fetch_nand, fetch_or, fetch_xor]);
    }
}
