use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<Option<Panicked>> = const { RefCell::new(None) };
}

/// A panic of the code under test.
#[derive(Clone, Debug, PartialEq)]
pub struct Panicked {
    pub message: String,
    pub location: String,
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let location = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if DEPTH.with(|d| d.get()) == 0 {
            eprintln!("unguarded panic: {message} at {location}");
        }
        LAST.with(|l| *l.borrow_mut() = Some(Panicked { message, location }));
    }));
}

/// Runs code under test; a panic is an observation, not a crash of the simulator.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.with(|d| d.set(d.get() - 1));
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST.with(|l| l.borrow_mut().take()).unwrap_or(Panicked {
            message: "<unknown panic>".into(),
            location: String::new(),
        })),
    }
}
