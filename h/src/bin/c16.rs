//! C16: ownership. Elements that register their birth, copies and death in a ledger go through random
//! chains of conversions between owned, shared, copy-on-write and borrowed arrays, with panics thrown
//! from copies and closures.
use rstsr_core::prelude::*;
use rstsr_core::storage::exports::{DataAPI, DataArc, Storage};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};
use std::sync::Arc;
use vh::*;

const MAGIC: u16 = 0x5A17;
const ROOM: usize = 1 << 18;

/// Which elements of one case exist.
pub struct Ledger {
    state: Vec<AtomicU8>,
    next: AtomicU32,
    /// copies until one panics
    fuse: AtomicI64,
    bad: AtomicU64,
}
static LEDGERS: std::sync::OnceLock<Vec<Ledger>> = std::sync::OnceLock::new();
static FREE: std::sync::Mutex<Vec<u16>> = std::sync::Mutex::new(vec![]);
/// Drops of memory that never held an element.
static WILD: AtomicU64 = AtomicU64::new(0);

fn ledgers() -> &'static Vec<Ledger> {
    LEDGERS.get_or_init(|| {
        FREE.lock().unwrap().extend(0..16);
        (0..16)
            .map(|_| Ledger {
                state: (0..ROOM).map(|_| AtomicU8::new(0)).collect(),
                next: AtomicU32::new(0),
                fuse: AtomicI64::new(i64::MAX),
                bad: AtomicU64::new(0),
            })
            .collect()
    })
}

#[derive(Debug)]
pub struct Tok {
    led: u16,
    magic: u16,
    id: u32,
    pub val: i64,
}
thread_local! { static CUR: Cell<u16> = const { Cell::new(0) } }

impl Tok {
    pub fn on(led: u16, val: i64) -> Tok {
        let l = &ledgers()[led as usize];
        let id = l.next.fetch_add(1, SeqCst);
        assert!((id as usize) < ROOM, "ledger full");
        if l.state[id as usize].swap(1, SeqCst) != 0 {
            l.bad.fetch_add(1, SeqCst);
        }
        Tok { led, magic: MAGIC, id, val }
    }
    pub fn new(val: i64) -> Tok {
        Tok::on(CUR.get(), val)
    }
    fn whole(&self) -> bool {
        self.magic == MAGIC && self.led < 16
    }
    pub fn alive(&self) -> bool {
        self.whole() && ledgers()[self.led as usize].state[self.id as usize].load(SeqCst) == 1
    }
    pub fn tick(&self) {
        if self.whole() {
            let l = &ledgers()[self.led as usize];
            let burn = |x| match x {
                i64::MAX => None,
                0 => Some(i64::MAX),
                _ => Some(x - 1),
            };
            if l.fuse.fetch_update(SeqCst, SeqCst, burn) == Ok(0) {
                panic!("injected panic");
            }
        }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        if !self.alive() {
            WILD.fetch_add(1, SeqCst);
            return Tok { led: u16::MAX, magic: MAGIC, id: 0, val: -1 };
        }
        self.tick();
        Tok::on(self.led, self.val)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.magic == MAGIC && self.led == u16::MAX {
            return;
        }
        if !self.whole() || self.id as usize >= ROOM {
            WILD.fetch_add(1, SeqCst);
            return;
        }
        let l = &ledgers()[self.led as usize];
        if l.state[self.id as usize].swap(2, SeqCst) != 1 {
            l.bad.fetch_add(1, SeqCst);
        }
    }
}
impl Default for Tok {
    fn default() -> Tok {
        Tok::new(0)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        self.val == o.val
    }
}
impl std::ops::Add for Tok {
    type Output = Tok;
    fn add(self, o: Tok) -> Tok {
        self.tick();
        Tok::on(self.led, self.val + o.val)
    }
}
impl std::ops::AddAssign for Tok {
    fn add_assign(&mut self, o: Tok) {
        self.tick();
        self.val += o.val;
    }
}

/// A ledger borrowed for one case.
pub struct Book(pub u16);
impl Book {
    pub fn open() -> Book {
        ledgers();
        let k = loop {
            if let Some(k) = FREE.lock().unwrap().pop() {
                break k;
            }
            std::thread::yield_now();
        };
        let l = &ledgers()[k as usize];
        let n = l.next.swap(0, SeqCst) as usize;
        for s in &l.state[..n.min(ROOM)] {
            s.store(0, SeqCst);
        }
        l.bad.store(0, SeqCst);
        l.fuse.store(i64::MAX, SeqCst);
        CUR.set(k);
        Book(k)
    }
    fn led(&self) -> &'static Ledger {
        &ledgers()[self.0 as usize]
    }
    pub fn arm(&self, n: i64) {
        self.led().fuse.store(n, SeqCst);
    }
    /// Whether the panic that was armed has been thrown.
    pub fn disarm(&self) -> bool {
        self.led().fuse.swap(i64::MAX, SeqCst) == i64::MAX
    }
    pub fn made(&self) -> usize {
        self.led().next.load(SeqCst) as usize
    }
    pub fn living(&self) -> usize {
        self.led().state[..self.made()].iter().filter(|s| s.load(SeqCst) == 1).count()
    }
    pub fn sound(&self) -> R {
        let b = self.led().bad.load(SeqCst);
        ensure!(b == 0, "{b} elements were dropped twice");
        let w = WILD.swap(0, SeqCst);
        ensure!(w == 0, "{w} drops or copies of memory that holds no living element");
        Ok(())
    }
}
impl Drop for Book {
    fn drop(&mut self) {
        FREE.lock().unwrap().push(self.0);
    }
}

devices!("c16.rs");

fn main() {
    main_check(Check {
        prop: "C16",
        level: "exploration",
        rule: "a case counts when at least two arrays of more than one element were converted; distinct by layouts and operations",
        assumptions: &[
            "elements that a panicking operation had already produced may be leaked, but not dropped twice",
        ],
        families: vec![
            fam("chain_serial", ser::chain_case, 12000, 600000),
            fam("chain_pool", par::chain_case, 6000, 300000),
            fam("panic_serial", ser::panic_case, 12000, 600000),
            fam("panic_pool", par::panic_case, 6000, 300000),
            fam("with_output_serial", ser::output_case, 1500, 40000),
            fam("with_output_pool", par::output_case, 800, 20000),
        ],
        workers: 8,
    })
}
