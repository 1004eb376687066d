//! Stand-in for the `tracing` crate in a simulated program, which starts many times in one process:
//! messages are formatted and dropped.
#[macro_export]
macro_rules! sim_log {
    (target: $x:expr, $($t:tt)*) => { $crate::sim_log!($($t)*) };
    ($f:literal $($t:tt)*) => {{ let m = ::std::format!($f $($t)*); if $crate::shown() { ::std::eprintln!("log: {m}"); } }};
    // Structured fields are shown as they are written.
    ($($t:tt)*) => {{ if $crate::shown() { ::std::eprintln!("log: {}", ::std::stringify!($($t)*)); } }};
}
#[macro_export]
macro_rules! trace { ($($t:tt)*) => { $crate::sim_log!($($t)*) }; }
#[macro_export]
macro_rules! debug { ($($t:tt)*) => { $crate::sim_log!($($t)*) }; }
#[macro_export]
macro_rules! info { ($($t:tt)*) => { $crate::sim_log!($($t)*) }; }
#[macro_export]
macro_rules! warn { ($($t:tt)*) => { $crate::sim_log!($($t)*) }; }
#[macro_export]
macro_rules! error { ($($t:tt)*) => { $crate::sim_log!($($t)*) }; }

/// Whether messages are shown, to look into a replay.
pub fn shown() -> bool {
    static SHOWN: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *SHOWN.get_or_init(|| std::env::var_os("SIM_LOG").is_some())
}

pub mod subscriber {
    #[derive(Debug)]
    pub struct SetGlobalDefaultError;
    impl std::fmt::Display for SetGlobalDefaultError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "a global subscriber has already been set")
        }
    }
    impl std::error::Error for SetGlobalDefaultError {}
    pub fn set_global_default<S>(_: S) -> Result<(), SetGlobalDefaultError> {
        Ok(())
    }
}
