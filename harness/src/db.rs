//! The database given to Findex by the harnesses: the `InMemoryDb` of the
//! repository, shared by several clients, behind a gate which can yield to
//! other clients, fail or stop (crash) at any call.
use async_trait::async_trait;
use cosmian_findex::*;
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

#[derive(Debug)]
pub struct DbErr(pub u8);
impl std::fmt::Display for DbErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("database error") }
}
impl std::error::Error for DbErr {}
impl DbInterfaceErrorTrait for DbErr {}

pub const DUMP: u8 = 0;
pub const FETCH: u8 = 1;
pub const UPSERT: u8 = 2;
pub const INSERT: u8 = 3;
pub const DELETE: u8 = 4;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Fault {
    None,
    /// The call has no effect and returns an error.
    Before,
    /// The call takes effect, and yet returns an error.
    After,
    /// The client stops before the call.
    CrashBefore,
    /// The client stops right after the call.
    CrashAfter,
}

/// State shared by all the tables of a scenario.
pub struct Ctl {
    /// Yield before each call.
    pub yields: bool,
    /// Number of calls made since the last `arm`.
    pub calls: u64,
    /// Calls left before the fault.
    pub fault_at: u64,
    pub fault: Fault,
    /// The fault has been triggered.
    pub fired: bool,
    /// Number of calls, by kind and by table (`[table][kind]`).
    pub count: [[u64; 5]; 2],
    /// Table and kind of the call at which the fault was triggered.
    pub at: (u8, u8),
}
pub struct Shared(UnsafeCell<Ctl>);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

pub type CtlRef = Arc<Shared>;
pub fn new_ctl() -> CtlRef {
    Arc::new(Shared(UnsafeCell::new(Ctl {
        yields: false, calls: 0, fault_at: u64::MAX, fault: Fault::None, fired: false, count: [[0; 5]; 2], at: (9, 9),
    })))
}
impl Shared {
    #[allow(clippy::mut_from_ref)]
    pub fn c(&self) -> &mut Ctl { unsafe { &mut *self.0.get() } }
    /// The `n`-th call from now on triggers the fault.
    pub fn arm(&self, fault: Fault, n: u64) {
        let c = self.c();
        c.calls = 0;
        c.fault = fault;
        c.fault_at = n;
        c.fired = false;
        c.at = (9, 9);
    }
    pub fn disarm(&self) {
        let c = self.c();
        c.fault = Fault::None;
        c.fault_at = u64::MAX;
    }
    pub fn reset_count(&self) { self.c().count = [[0; 5]; 2]; }
    /// Number of calls which may modify the tables.
    pub fn writes(&self) -> u64 {
        let c = &self.c().count;
        (0..2).map(|t| c[t][UPSERT as usize] + c[t][INSERT as usize] + c[t][DELETE as usize]).sum()
    }
    pub fn total(&self) -> u64 {
        let c = &self.c().count;
        (0..2).map(|t| c[t].iter().sum::<u64>()).sum()
    }
}

/// Pending once.
struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 { Poll::Ready(()) } else { self.0 = true; Poll::Pending }
    }
}
pub async fn yield_once() { Yield(false).await }
/// Pending for ever: the client is dead.
struct Never;
impl Future for Never {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { Poll::Pending }
}

pub struct Db<const N: usize> {
    pub db: Arc<InMemoryDb<N>>,
    pub table: u8,
    pub ctl: CtlRef,
}
impl<const N: usize> Clone for Db<N> {
    fn clone(&self) -> Self { Self { db: self.db.clone(), table: self.table, ctl: self.ctl.clone() } }
}
impl<const N: usize> std::fmt::Debug for Db<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Db") }
}
impl<const N: usize> Db<N> {
    pub fn new(table: u8, ctl: &CtlRef) -> Self { Self { db: Arc::new(InMemoryDb::default()), table, ctl: ctl.clone() } }
    async fn enter(&self, kind: u8) -> Result<bool, DbErr> {
        if self.ctl.c().yields { yield_once().await; }
        let c = self.ctl.c();
        c.count[self.table as usize][kind as usize] += 1;
        let hit = c.fault != Fault::None && !c.fired && c.calls == c.fault_at;
        c.calls += 1;
        if hit {
            c.fired = true;
            c.at = (self.table, kind);
            match c.fault {
                Fault::Before => return Err(DbErr(1)),
                Fault::CrashBefore => Never.await,
                _ => {}
            }
        }
        Ok(hit)
    }
    async fn leave(&self, hit: bool) -> Result<(), DbErr> {
        if hit {
            match self.ctl.c().fault {
                Fault::After => return Err(DbErr(2)),
                Fault::CrashAfter => Never.await,
                _ => {}
            }
        }
        Ok(())
    }
}

#[async_trait(?Send)]
impl<const N: usize> DbInterface<N> for Db<N> {
    type Error = DbErr;
    async fn dump_tokens(&self) -> Result<Tokens, DbErr> {
        let h = self.enter(DUMP).await?;
        let r = self.db.dump_tokens().await.map_err(|_| DbErr(3));
        self.leave(h).await?;
        r
    }
    async fn fetch(&self, tokens: Tokens) -> Result<TokenWithEncryptedValueList<N>, DbErr> {
        let h = self.enter(FETCH).await?;
        let r = self.db.fetch(tokens).await.map_err(|_| DbErr(3));
        self.leave(h).await?;
        r
    }
    async fn upsert(&self, old: TokenToEncryptedValueMap<N>, new: TokenToEncryptedValueMap<N>) -> Result<TokenToEncryptedValueMap<N>, DbErr> {
        let h = self.enter(UPSERT).await?;
        let r = self.db.upsert(old, new).await.map_err(|_| DbErr(3));
        self.leave(h).await?;
        r
    }
    async fn insert(&self, values: TokenToEncryptedValueMap<N>) -> Result<(), DbErr> {
        let h = self.enter(INSERT).await?;
        let r = self.db.insert(values).await.map_err(|_| DbErr(3));
        self.leave(h).await?;
        r
    }
    async fn delete(&self, tokens: Tokens) -> Result<(), DbErr> {
        let h = self.enter(DELETE).await?;
        let r = self.db.delete(tokens).await.map_err(|_| DbErr(3));
        self.leave(h).await?;
        r
    }
}

fn raw() -> RawWaker {
    fn c(_: *const ()) -> RawWaker { raw() }
    fn n(_: *const ()) {}
    static V: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    RawWaker::new(std::ptr::null(), &V)
}
/// Runs a future to its end.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f: Pin<Box<F>> = Box::pin(f);
    loop { if let Poll::Ready(x) = poll(&mut f) { return x; } }
}
/// Runs a future until it completes or its client dies.
pub fn run<F: Future>(ctl: &Shared, f: F) -> Option<F::Output> {
    let mut f: Pin<Box<F>> = Box::pin(f);
    loop {
        match poll(&mut f) {
            Poll::Ready(x) => return Some(x),
            Poll::Pending => if ctl.c().fired && matches!(ctl.c().fault, Fault::CrashBefore | Fault::CrashAfter) { return None; },
        }
    }
}
pub fn poll<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Poll<F::Output> {
    let w = unsafe { Waker::from_raw(raw()) };
    let mut cx = Context::from_waker(&w);
    f.as_mut().poll(&mut cx)
}
