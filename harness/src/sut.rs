//! The code under test

use crate::engine::panic_text;
use crate::watch::input;
use mofmt::SyntaxKind;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum Fmt {
    Ok(String),
    Errors(Vec<String>),
    Panic(String),
}

/// Format a source just as the binary does (without the final end of line)
pub fn format_as(source: &str, entry: SyntaxKind) -> Fmt {
    input(source);
    let result = catch_unwind(AssertUnwindSafe(|| {
        let parsed = mofmt::parse("f.mo", source, entry);
        if parsed.errors.is_empty() {
            Ok(mofmt::pretty_print(
                parsed.tokens,
                parsed.comments,
                parsed.events,
            ))
        } else {
            Err(parsed.errors)
        }
    }));
    match result {
        Ok(Ok(s)) => Fmt::Ok(s),
        Ok(Err(e)) => Fmt::Errors(e),
        Err(e) => Fmt::Panic(panic_text(&*e)),
    }
}

pub fn format(source: &str) -> Fmt {
    format_as(source, SyntaxKind::StoredDefinition)
}

/// Errors, or a panic message
pub fn errors_named(name: &str, source: &str, entry: SyntaxKind) -> Result<Vec<String>, String> {
    input(source);
    catch_unwind(AssertUnwindSafe(|| {
        mofmt::parse(name, source, entry).errors
    }))
    .map_err(|e| panic_text(&*e))
}
