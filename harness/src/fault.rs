//! Callback counter, fault injection and the element ledger (all thread local: a monitor per thread).
use crate::mon::Injected;
use std::cell::{Cell, RefCell};

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static DROPS: Cell<u64> = const { Cell::new(0) };
    static ARM: Cell<u64> = const { Cell::new(0) };      // panic at this callback (1-based), 0 = off
    static ARM_DROP: Cell<u64> = const { Cell::new(0) }; // panic at this drop
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static LEDGER: RefCell<Ledger> = const { RefCell::new(Ledger { state: Vec::new(), live: 0, errs: Vec::new(), births: 0 }) };
}

thread_local! {
    static HOOK_AT: Cell<u64> = const { Cell::new(0) };
    static HOOK: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
}

/// Runs `f` inside the `at`-th callback (1-based) after the next `arm`.
pub fn hook(at: u64, f: Box<dyn FnOnce()>) {
    HOOK_AT.with(|c| c.set(at));
    HOOK.with(|h| *h.borrow_mut() = Some(f));
}
/// Takes the hook away; true when it had not run.
pub fn unhook() -> bool {
    HOOK_AT.with(|c| c.set(0));
    HOOK.with(|h| h.borrow_mut().take()).is_some()
}

struct Ledger {
    state: Vec<u8>,
    live: u64,
    births: u64,
    errs: Vec<String>,
}

/// Start counting/arming: `cb` = index of the callback to fail, `drop` = index of the drop to fail (0 = none).
pub fn arm(cb: u64, drop: u64) {
    CALLS.with(|c| c.set(0));
    DROPS.with(|c| c.set(0));
    ARM.with(|c| c.set(cb));
    ARM_DROP.with(|c| c.set(drop));
    ARMED.with(|c| c.set(true));
}

pub fn pause() -> bool {
    ARMED.with(|c| c.replace(false))
}

pub fn resume(on: bool) {
    ARMED.with(|c| c.set(on));
}

/// Stop; returns (callbacks, drops) seen while armed.
pub fn disarm() -> (u64, u64) {
    ARMED.with(|c| c.set(false));
    (CALLS.with(|c| c.get()), DROPS.with(|c| c.get()))
}

/// Every user callback (closure, operator, clone, comparison, source pull) calls this.
pub fn callback() {
    if ARMED.with(|c| c.get()) {
        let n = CALLS.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        if n == HOOK_AT.with(|c| c.get()) {
            if let Some(f) = HOOK.with(|h| h.borrow_mut().take()) {
                let was = pause();
                f();
                resume(was);
            }
        }
        if n == ARM.with(|c| c.get()) {
            std::panic::panic_any(Injected);
        }
    }
}

fn on_drop() {
    if ARMED.with(|c| c.get()) {
        let n = DROPS.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        if n == ARM_DROP.with(|c| c.get()) && !std::thread::panicking() {
            std::panic::panic_any(Injected);
        }
    }
}

pub fn ledger_reset() {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.state.clear();
        l.live = 0;
        l.births = 0;
        l.errs.clear();
    });
}

pub fn ledger_live() -> u64 {
    LEDGER.with(|l| l.borrow().live)
}
pub fn ledger_births() -> u64 {
    LEDGER.with(|l| l.borrow().births)
}
pub fn ledger_errs() -> Vec<String> {
    LEDGER.with(|l| std::mem::take(&mut l.borrow_mut().errs))
}

pub(crate) fn birth() -> u64 {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.state.push(1);
        l.live += 1;
        l.births += 1;
        l.state.len() as u64 - 1
    })
}

pub(crate) fn err(s: String) {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        if l.errs.len() < 8 {
            l.errs.push(s)
        }
    });
}

/// True when this is the first, legitimate drop of a live element.
pub(crate) fn death(id: u64, seal: u64) -> bool {
    let first = LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        if seal != id ^ SEAL || id as usize >= l.state.len() {
            if l.errs.len() < 8 {
                l.errs.push(format!("drop of a value that was never an element (id {id:#x})"));
            }
            return false;
        }
        match l.state[id as usize] {
            1 => {
                l.state[id as usize] = 2;
                l.live -= 1;
                true
            }
            _ => {
                if l.errs.len() < 8 {
                    l.errs.push(format!("element #{id} dropped twice"));
                }
                false
            }
        }
    });
    first
}


pub(crate) fn drop_fault() {
    on_drop();
}

pub(crate) fn alive(id: u64, seal: u64, what: &str) -> bool {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        let e = if seal != id ^ SEAL || id as usize >= l.state.len() {
            Some(format!("{what} of a value that was never an element (id {id:#x})"))
        } else if l.state[id as usize] != 1 {
            Some(format!("{what} of element #{id} after it was dropped"))
        } else {
            None
        };
        match e {
            Some(e) => {
                if l.errs.len() < 8 {
                    l.errs.push(e);
                }
                false
            }
            None => true,
        }
    })
}

pub const SEAL: u64 = 0xA5A5_5A5A_C3C3_3C3C;
