//! Device instances, created once.
use rstsr_core::prelude::*;
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

pub use rstsr_common::flags::FlagOrder;

pub fn ord(colm: bool) -> FlagOrder {
    if colm {
        FlagOrder::F
    } else {
        FlagOrder::C
    }
}

/// The order this build uses by default.
pub fn build_colm() -> bool {
    cfg!(feature = "colm")
}

fn leak<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}

pub fn serial(colm: bool) -> &'static DeviceCpuSerial {
    static D: OnceLock<[&'static DeviceCpuSerial; 2]> = OnceLock::new();
    D.get_or_init(|| {
        [false, true].map(|c| {
            let mut d = DeviceCpuSerial::default();
            d.set_default_order(ord(c));
            leak(d)
        })
    })[colm as usize]
}

/// Thread-pool device with nt threads.
pub fn faer(nt: usize, colm: bool) -> &'static DeviceFaer {
    static D: OnceLock<Mutex<HashMap<(usize, bool), &'static DeviceFaer>>> = OnceLock::new();
    let m = D.get_or_init(|| Mutex::new(HashMap::new()));
    let mut m = m.lock().unwrap_or_else(|e| e.into_inner());
    m.entry((nt, colm)).or_insert_with(|| {
        let mut d = DeviceFaer::new(nt);
        d.set_default_order(ord(colm));
        leak(d)
    })
}

#[cfg(feature = "blas")]
pub fn oblas(nt: usize, colm: bool) -> &'static rstsr_openblas::DeviceOpenBLAS {
    static D: OnceLock<Mutex<HashMap<(usize, bool), &'static rstsr_openblas::DeviceOpenBLAS>>> = OnceLock::new();
    let m = D.get_or_init(|| Mutex::new(HashMap::new()));
    let mut m = m.lock().unwrap_or_else(|e| e.into_inner());
    m.entry((nt, colm)).or_insert_with(|| {
        let mut d = rstsr_openblas::DeviceOpenBLAS::new(nt);
        d.set_default_order(ord(colm));
        leak(d)
    })
}

/// A user's thread pool of n threads (made once).
pub fn user_pool(n: usize) -> &'static rayon::ThreadPool {
    static P: std::sync::OnceLock<std::sync::Mutex<std::collections::HashMap<usize, &'static rayon::ThreadPool>>> =
        std::sync::OnceLock::new();
    let m = P.get_or_init(|| std::sync::Mutex::new(Default::default()));
    let mut m = m.lock().unwrap_or_else(|e| e.into_inner());
    m.entry(n).or_insert_with(|| Box::leak(Box::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap())))
}

/// Serial device in the order the build uses by default, not set explicitly.
pub fn serial_plain() -> &'static DeviceCpuSerial {
    static D: OnceLock<&'static DeviceCpuSerial> = OnceLock::new();
    D.get_or_init(|| leak(DeviceCpuSerial::default()))
}

/// Thread-pool device in the order the build uses by default, not set explicitly.
pub fn faer_plain(nt: usize) -> &'static DeviceFaer {
    static D: OnceLock<Mutex<HashMap<usize, &'static DeviceFaer>>> = OnceLock::new();
    let m = D.get_or_init(|| Mutex::new(HashMap::new()));
    let mut m = m.lock().unwrap_or_else(|e| e.into_inner());
    m.entry(nt).or_insert_with(|| leak(DeviceFaer::new(nt)))
}
