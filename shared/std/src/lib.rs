//! Stands in for `std` in a copy of the library: everything is the real thing, except that
//! accesses to shared state first ask the scheduler who goes on.
#![allow(deprecated)]
pub use ::std::*;

pub mod sched;

macro_rules! forward {
    ($name:ident $(<$t:ident>)?, $real:ty) => {
        impl $(<$t>)? ::std::ops::Deref for $name $(<$t>)? {
            type Target = $real;
            fn deref(&self) -> &$real {
                &self.0
            }
        }
        impl $(<$t>)? ::std::ops::DerefMut for $name $(<$t>)? {
            fn deref_mut(&mut self) -> &mut $real {
                &mut self.0
            }
        }
    };
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        if !crate::sched::wait() {
            ::std::hint::spin_loop();
        }
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        if !crate::sched::wait() {
            ::std::thread::yield_now();
        }
    }
    pub fn sleep(d: ::std::time::Duration) {
        if !crate::sched::wait() {
            ::std::thread::sleep(d);
        }
    }
}

pub mod cell {
    use crate::sched::point;
    pub use ::std::cell::*;

    #[repr(transparent)]
    #[derive(Debug, Default)]
    pub struct UnsafeCell<T>(::std::cell::UnsafeCell<T>);
    impl<T> UnsafeCell<T> {
        pub const fn new(t: T) -> Self {
            Self(::std::cell::UnsafeCell::new(t))
        }
        pub fn get(&self) -> *mut T {
            point();
            self.0.get()
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
    }
    forward!(UnsafeCell<T>, ::std::cell::UnsafeCell<T>);

    #[repr(transparent)]
    #[derive(Default)]
    pub struct Cell<T>(::std::cell::Cell<T>);
    impl<T> Cell<T> {
        pub const fn new(t: T) -> Self {
            Self(::std::cell::Cell::new(t))
        }
        pub fn set(&self, t: T) {
            point();
            self.0.set(t)
        }
        pub fn replace(&self, t: T) -> T {
            point();
            self.0.replace(t)
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
        pub fn swap(&self, o: &Self) {
            point();
            self.0.swap(&o.0)
        }
    }
    impl<T: Copy> Cell<T> {
        pub fn get(&self) -> T {
            point();
            self.0.get()
        }
    }
    impl<T: Default> Cell<T> {
        pub fn take(&self) -> T {
            point();
            self.0.take()
        }
    }
    impl<T: Copy> Clone for Cell<T> {
        fn clone(&self) -> Self {
            Self::new(self.get())
        }
    }
    impl<T: Copy + ::std::fmt::Debug> ::std::fmt::Debug for Cell<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            self.0.fmt(f)
        }
    }
    impl<T: Copy + PartialEq> PartialEq for Cell<T> {
        fn eq(&self, o: &Self) -> bool {
            self.get() == o.get()
        }
    }
    forward!(Cell<T>, ::std::cell::Cell<T>);

    #[repr(transparent)]
    #[derive(Debug, Default, Clone, PartialEq, Eq)]
    pub struct RefCell<T>(::std::cell::RefCell<T>);
    impl<T> RefCell<T> {
        pub const fn new(t: T) -> Self {
            Self(::std::cell::RefCell::new(t))
        }
        pub fn borrow(&self) -> Ref<'_, T> {
            point();
            self.0.borrow()
        }
        pub fn borrow_mut(&self) -> RefMut<'_, T> {
            point();
            self.0.borrow_mut()
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
    }
    forward!(RefCell<T>, ::std::cell::RefCell<T>);

    #[repr(transparent)]
    #[derive(Debug, Default, Clone, PartialEq, Eq)]
    pub struct OnceCell<T>(::std::cell::OnceCell<T>);
    impl<T> OnceCell<T> {
        pub const fn new() -> Self {
            Self(::std::cell::OnceCell::new())
        }
        pub fn get(&self) -> Option<&T> {
            point();
            self.0.get()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            point();
            self.0.set(t)
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            point();
            self.0.get_or_init(f)
        }
        pub fn into_inner(self) -> Option<T> {
            self.0.into_inner()
        }
    }
    forward!(OnceCell<T>, ::std::cell::OnceCell<T>);
}

pub mod sync {
    use crate::sched::{block, point, release, wait, watched};
    pub use ::std::sync::*;
    use ::std::ops::Deref;

    pub mod atomic {
        use crate::sched::point;
        pub use ::std::sync::atomic::*;

        macro_rules! common {
            ($name:ident, $t:ty) => {
                #[repr(transparent)]
                #[derive(Debug, Default)]
                pub struct $name(::std::sync::atomic::$name);
                impl $name {
                    pub const fn new(t: $t) -> Self {
                        Self(::std::sync::atomic::$name::new(t))
                    }
                    pub fn load(&self, o: Ordering) -> $t {
                        point();
                        self.0.load(o)
                    }
                    pub fn store(&self, t: $t, o: Ordering) {
                        point();
                        self.0.store(t, o)
                    }
                    pub fn swap(&self, t: $t, o: Ordering) -> $t {
                        point();
                        self.0.swap(t, o)
                    }
                    pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        point();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                        point();
                        self.0.compare_exchange(a, b, s, f)
                    }
                    pub fn fetch_update(&self, s: Ordering, f: Ordering, u: impl FnMut($t) -> Option<$t>) -> Result<$t, $t> {
                        point();
                        self.0.fetch_update(s, f, u)
                    }
                    pub fn fetch_and(&self, t: $t, o: Ordering) -> $t {
                        point();
                        self.0.fetch_and(t, o)
                    }
                    pub fn fetch_or(&self, t: $t, o: Ordering) -> $t {
                        point();
                        self.0.fetch_or(t, o)
                    }
                    pub fn fetch_xor(&self, t: $t, o: Ordering) -> $t {
                        point();
                        self.0.fetch_xor(t, o)
                    }
                    pub fn into_inner(self) -> $t {
                        self.0.into_inner()
                    }
                }
                forward!($name, ::std::sync::atomic::$name);
            };
        }
        macro_rules! number {
            ($($name:ident, $t:ty;)*) => {$(
                common!($name, $t);
                impl $name {
                    pub fn fetch_add(&self, t: $t, o: Ordering) -> $t {
                        point();
                        self.0.fetch_add(t, o)
                    }
                    pub fn fetch_sub(&self, t: $t, o: Ordering) -> $t {
                        point();
                        self.0.fetch_sub(t, o)
                    }
                    pub fn fetch_max(&self, t: $t, o: Ordering) -> $t {
                        point();
                        self.0.fetch_max(t, o)
                    }
                    pub fn fetch_min(&self, t: $t, o: Ordering) -> $t {
                        point();
                        self.0.fetch_min(t, o)
                    }
                }
            )*};
        }
        common!(AtomicBool, bool);
        number! {
            AtomicU8, u8; AtomicU16, u16; AtomicU32, u32; AtomicU64, u64; AtomicUsize, usize;
            AtomicI8, i8; AtomicI16, i16; AtomicI32, i32; AtomicI64, i64; AtomicIsize, isize;
        }

        #[repr(transparent)]
        #[derive(Debug)]
        pub struct AtomicPtr<T>(::std::sync::atomic::AtomicPtr<T>);
        impl<T> AtomicPtr<T> {
            pub const fn new(t: *mut T) -> Self {
                Self(::std::sync::atomic::AtomicPtr::new(t))
            }
            pub fn load(&self, o: Ordering) -> *mut T {
                point();
                self.0.load(o)
            }
            pub fn store(&self, t: *mut T, o: Ordering) {
                point();
                self.0.store(t, o)
            }
            pub fn swap(&self, t: *mut T, o: Ordering) -> *mut T {
                point();
                self.0.swap(t, o)
            }
            pub fn compare_exchange(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
                point();
                self.0.compare_exchange(a, b, s, f)
            }
            pub fn into_inner(self) -> *mut T {
                self.0.into_inner()
            }
        }
        forward!(AtomicPtr<T>, ::std::sync::atomic::AtomicPtr<T>);
    }

    /// A cell that is filled once. Looking at a filled one commutes with everything, so only
    /// accesses that find it empty are decisions.
    pub struct OnceLock<T> {
        cell: ::std::sync::OnceLock<T>,
        busy: ::std::sync::atomic::AtomicBool,
    }
    struct Busy<'a, T>(&'a OnceLock<T>);
    impl<T> Drop for Busy<'_, T> {
        fn drop(&mut self) {
            self.0.busy.store(false, ::std::sync::atomic::Ordering::SeqCst);
            release(self.0.at());
        }
    }
    impl<T> OnceLock<T> {
        pub const fn new() -> Self {
            Self { cell: ::std::sync::OnceLock::new(), busy: ::std::sync::atomic::AtomicBool::new(false) }
        }
        pub fn with_value(t: T) -> Self {
            Self::from(t)
        }
        fn at(&self) -> usize {
            self as *const Self as usize
        }
        pub fn get(&self) -> Option<&T> {
            if self.cell.get().is_none() {
                point();
            }
            self.cell.get()
        }
        pub fn get_mut(&mut self) -> Option<&mut T> {
            self.cell.get_mut()
        }
        pub fn set(&self, t: T) -> Result<(), T> {
            self.try_insert(t).map(|_| ()).map_err(|e| e.1)
        }
        pub fn try_insert(&self, t: T) -> Result<&T, (&T, T)> {
            let mut t = Some(t);
            let r = self.get_or_init(|| t.take().unwrap());
            match t {
                None => Ok(r),
                Some(t) => Err((r, t)),
            }
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            enum No {}
            match self.get_or_try_init(|| Ok::<T, No>(f())) {
                Ok(r) => r,
                Err(e) => match e {},
            }
        }
        pub fn get_or_try_init<F: FnOnce() -> Result<T, E>, E>(&self, f: F) -> Result<&T, E> {
            if let Some(r) = self.cell.get() {
                return Ok(r);
            }
            if !watched() {
                let v = f()?;
                return Ok(self.cell.get_or_init(|| v));
            }
            point();
            loop {
                if let Some(r) = self.cell.get() {
                    return Ok(r);
                }
                if !self.busy.swap(true, ::std::sync::atomic::Ordering::SeqCst) {
                    break;
                }
                block(self.at());
            }
            let b = Busy(self);
            let v = f()?;
            let r = self.cell.get_or_init(|| v);
            drop(b);
            Ok(r)
        }
        pub fn wait(&self) -> &T {
            loop {
                if let Some(r) = self.cell.get() {
                    return r;
                }
                if !wait() {
                    ::std::thread::yield_now();
                }
            }
        }
        pub fn into_inner(self) -> Option<T> {
            self.cell.into_inner()
        }
        pub fn take(&mut self) -> Option<T> {
            self.cell.take()
        }
    }
    impl<T> Default for OnceLock<T> {
        fn default() -> Self {
            Self::new()
        }
    }
    impl<T> From<T> for OnceLock<T> {
        fn from(t: T) -> Self {
            Self { cell: ::std::sync::OnceLock::from(t), busy: ::std::sync::atomic::AtomicBool::new(false) }
        }
    }
    impl<T: Clone> Clone for OnceLock<T> {
        fn clone(&self) -> Self {
            self.get().cloned().map(Self::from).unwrap_or_default()
        }
    }
    impl<T: PartialEq> PartialEq for OnceLock<T> {
        fn eq(&self, o: &Self) -> bool {
            self.get() == o.get()
        }
    }
    impl<T: Eq> Eq for OnceLock<T> {}
    impl<T: ::std::fmt::Debug> ::std::fmt::Debug for OnceLock<T> {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            self.cell.fmt(f)
        }
    }

    pub struct LazyLock<T, F = fn() -> T> {
        cell: OnceLock<T>,
        init: ::std::sync::Mutex<Option<F>>,
    }
    impl<T, F: FnOnce() -> T> LazyLock<T, F> {
        pub const fn new(f: F) -> Self {
            Self { cell: OnceLock::new(), init: ::std::sync::Mutex::new(Some(f)) }
        }
        pub fn force(this: &Self) -> &T {
            this.cell.get_or_init(|| {
                let f = this.init.lock().unwrap().take();
                f.expect("the initialiser panicked before")()
            })
        }
        pub fn get(this: &Self) -> Option<&T> {
            this.cell.get()
        }
    }
    impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Self::force(self)
        }
    }

    pub struct Once(OnceLock<()>);
    impl Once {
        pub const fn new() -> Self {
            Self(OnceLock::new())
        }
        pub fn call_once<F: FnOnce()>(&self, f: F) {
            self.0.get_or_init(f);
        }
        pub fn is_completed(&self) -> bool {
            self.0.get().is_some()
        }
    }

    #[derive(Debug, Default)]
    pub struct Mutex<T>(::std::sync::Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(t: T) -> Self {
            Self(::std::sync::Mutex::new(t))
        }
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            if !watched() {
                return self.0.lock();
            }
            point();
            loop {
                match self.0.try_lock() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => {
                        wait();
                    }
                }
            }
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            point();
            self.0.try_lock()
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    forward!(Mutex<T>, ::std::sync::Mutex<T>);

    #[derive(Debug, Default)]
    pub struct RwLock<T>(::std::sync::RwLock<T>);
    impl<T> RwLock<T> {
        pub const fn new(t: T) -> Self {
            Self(::std::sync::RwLock::new(t))
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            if !watched() {
                return self.0.read();
            }
            point();
            loop {
                match self.0.try_read() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => {
                        wait();
                    }
                }
            }
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            if !watched() {
                return self.0.write();
            }
            point();
            loop {
                match self.0.try_write() {
                    Ok(g) => return Ok(g),
                    Err(TryLockError::Poisoned(e)) => return Err(e),
                    Err(TryLockError::WouldBlock) => {
                        wait();
                    }
                }
            }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.0.into_inner()
        }
    }
    forward!(RwLock<T>, ::std::sync::RwLock<T>);
}
