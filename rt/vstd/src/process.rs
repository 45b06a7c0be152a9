pub use std::process::*;

pub struct ProcessExit(pub i32);

/// Never ends the checker: unwinds like a panic and records the exit.
pub fn exit(code: i32) -> ! {
    crate::sched::note(format!("process::exit({})", code));
    std::panic::resume_unwind(Box::new(ProcessExit(code)))
}

pub fn abort() -> ! {
    crate::sched::note("process::abort()".to_string());
    std::panic::resume_unwind(Box::new(ProcessExit(134)))
}
