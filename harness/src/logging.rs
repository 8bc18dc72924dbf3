//! A logger which formats every record and throws the text away. Off unless a case asks for it.

use std::fmt::Write;

struct Discard;

impl Write for Discard {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

struct Logger;

impl log::Log for Logger {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }

    fn log(&self, record: &log::Record) {
        let _ = write!(Discard, "{}", record.args());
    }

    fn flush(&self) {}
}

pub fn install() {
    log::set_logger(&Logger).expect("no other logger");
    log::set_max_level(log::LevelFilter::Off);
}

/// Run `f` with everything logged.
pub fn logged<T>(f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            log::set_max_level(log::LevelFilter::Off);
        }
    }
    log::set_max_level(log::LevelFilter::Trace);
    let _r = Reset;
    f()
}
