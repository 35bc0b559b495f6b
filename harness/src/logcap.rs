//! Captures what the library logs, per thread.

use std::cell::RefCell;

use log::{Level, LevelFilter, Log, Metadata, Record};

#[derive(Debug, Clone, PartialEq)]
pub struct Line {
    pub level: Level,
    pub text: String,
}

thread_local! {
    static LINES: RefCell<Option<Vec<Line>>> = const { RefCell::new(None) };
}

struct Capture;

impl Log for Capture {
    fn enabled(&self, m: &Metadata) -> bool {
        m.target().starts_with("pw_") && LINES.with(|l| l.borrow().is_some())
    }
    fn log(&self, r: &Record) {
        if self.enabled(r.metadata()) {
            let line = Line { level: r.level(), text: r.args().to_string() };
            LINES.with(|l| {
                if let Some(v) = l.borrow_mut().as_mut() {
                    v.push(line)
                }
            });
        }
    }
    fn flush(&self) {}
}

/// Runs `f` and returns what it logged.
pub fn captured<T>(f: impl FnOnce() -> T) -> (T, Vec<Line>) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = log::set_logger(&Capture);
        log::set_max_level(LevelFilter::Trace);
    });
    LINES.with(|l| *l.borrow_mut() = Some(vec![]));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            LINES.with(|l| *l.borrow_mut() = None);
        }
    }
    let _off = Off;
    let t = f();
    let lines = LINES.with(|l| l.borrow_mut().take()).unwrap_or_default();
    (t, lines)
}

/// The number of the hunk a line is about.
pub fn hunk_number(text: &str) -> Option<usize> {
    let t = &text[text.find('#')? + 1..];
    let n = t.find(|c: char| !c.is_ascii_digit()).unwrap_or(t.len());
    t[..n].parse().ok()
}

/// "... offset N ..."
pub fn offset(text: &str) -> Option<isize> {
    let t = text[text.find("offset")? + 6..].trim_start();
    let n = t.find(|c: char| !(c.is_ascii_digit() || c == '-')).unwrap_or(t.len());
    t[..n].parse().ok()
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Told {
    Clean,
    Fuzzy,
    Already,
    Failed,
}

/// What the lines tell about the hunks, which have to be numbered from 1 without gaps.
pub fn outcomes(lines: &[Line]) -> Result<Vec<Told>, String> {
    let mut v = vec![];
    for l in lines {
        let Some(n) = hunk_number(&l.text) else { continue };
        if n != v.len() + 1 {
            return Err(format!("line {:?} where hunk {} is expected, in {lines:?}", l.text, v.len() + 1));
        }
        let already = l.text.contains("already") && l.level != Level::Error;
        v.push(match l.level {
            Level::Error => Told::Failed,
            _ if already => Told::Already,
            Level::Warn => Told::Fuzzy,
            _ => Told::Clean,
        });
    }
    Ok(v)
}
