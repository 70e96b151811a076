//! Errors and steps
use crate::ai::*;
use gift::Error;
use std::error::Error as _;
use std::fmt::Display;
use std::num::TryFromIntError;

pub fn r_error_from() {
    let t = any_u32();
    match Error::from(io_error(t)) {
        Error::Io(i) => check("A05 wraps the I/O error", io_tag(&i) == t),
        _ => check("A05 wraps the I/O error", false),
    }
    let t: TryFromIntError = any_val();
    match Error::from(t) {
        Error::TryFromInt(i) => check("A05 wraps the conversion error", i == t),
        _ => check("A05 wraps the conversion error", false),
    }
    reach("A05 wrapped");
}

pub fn r_error_source() {
    let e: Error = any_val();
    match (&e, e.source()) {
        (Error::Io(i), Some(s)) => check("A05 I/O error is the source", same_error(s, i)),
        (Error::Io(_), None) => check("A05 I/O error is the source", false),
        (Error::TryFromInt(i), Some(s)) => check("A05 conversion error is the source", same_error(s, i)),
        (Error::TryFromInt(_), None) => check("A05 conversion error is the source", false),
        (_, s) => check("A05 no source", s.is_none()),
    }
    reach("A05 source");
}

pub fn r_error_text() {
    let e: Error = any_val();
    let mut f: std::fmt::Formatter = any_val();
    show_start();
    let _ = Display::fmt(&e, &mut f);
    let ok = match &e {
        Error::Io(i) => shown_error(i),
        Error::TryFromInt(i) => shown_error(i),
        Error::MalformedHeader => shown_name("MalformedHeader"),
        Error::UnsupportedVersion(_) => shown_name("UnsupportedVersion"),
        Error::InvalidBlockCode => shown_name("InvalidBlockCode"),
        Error::InvalidBlockSequence => shown_name("InvalidBlockSequence"),
        Error::MalformedGraphicControlExtension => shown_name("MalformedGraphicControlExtension"),
        Error::UnexpectedEndOfFile => shown_name("UnexpectedEndOfFile"),
        Error::InvalidLzwData => shown_name("InvalidLzwData"),
        Error::TooLargeImage => shown_name("TooLargeImage"),
        Error::IncompleteImageData => shown_name("IncompleteImageData"),
        Error::InvalidFrameDimensions => shown_name("InvalidFrameDimensions"),
        Error::MissingColorTable => shown_name("MissingColorTable"),
        Error::InvalidColorIndex => shown_name("InvalidColorIndex"),
        Error::InvalidRasterDimensions => shown_name("InvalidRasterDimensions"),
    };
    check("A05 text", ok);
    reach("A05 text");
}
