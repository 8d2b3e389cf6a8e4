//! Threads made by the code under test: each is run to its end by the one that makes it,
//! which is one of the schedules a real one may have.

use std::cell::Cell;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::thread::Result;

fn run<T>(f: impl FnOnce() -> T) -> Result<T> {
    let r = catch_unwind(AssertUnwindSafe(f));
    match r {
        Err(e) if simrt::aborting() => resume_unwind(e),
        r => r,
    }
}

pub struct JoinHandle<T>(Result<T>);

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        self.0
    }
    pub fn is_finished(&self) -> bool {
        true
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    JoinHandle(run(f))
}

pub struct Scope<'scope, 'env: 'scope> {
    panicked: Cell<usize>,
    _lifetimes: PhantomData<(&'scope mut &'scope (), &'env mut &'env ())>,
}
// Used by one thread only.
unsafe impl Sync for Scope<'_, '_> {}

pub struct ScopedJoinHandle<'scope, T> {
    result: Result<T>,
    panicked: &'scope Cell<usize>,
}
unsafe impl<T: Send> Send for ScopedJoinHandle<'_, T> {}
unsafe impl<T: Send> Sync for ScopedJoinHandle<'_, T> {}

impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> Result<T> {
        if self.result.is_err() {
            self.panicked.set(self.panicked.get() - 1);
        }
        self.result
    }
    pub fn is_finished(&self) -> bool {
        true
    }
}

impl<'scope> Scope<'scope, '_> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let result = run(f);
        if result.is_err() {
            self.panicked.set(self.panicked.get() + 1);
        }
        ScopedJoinHandle { result, panicked: &self.panicked }
    }
}

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope { panicked: Cell::new(0), _lifetimes: PhantomData };
    let r = f(&s);
    if s.panicked.get() > 0 {
        panic!("a scoped thread panicked");
    }
    r
}
