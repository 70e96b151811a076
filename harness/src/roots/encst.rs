//! Encoding of steps
use crate::ai::*;
use crate::io::Silent;
use crate::tmon::*;
use gift::block::*;
use gift::encode::StepEnc;
use gift::{Encoder, Error, Step};
use pix::rgb::SRgb8;
use pix::{Palette, Raster, gray::Gray8};

/// Palette of some colors, and its table
fn palette(n: usize) -> (Palette, Vec<u8>) {
    let mut p = vec![];
    let mut t = vec![];
    for _ in 0..n {
        let (r, g, b): (u8, u8, u8) = any_val();
        p.push(SRgb8::new(r, g, b));
        t.push(r);
        t.push(g);
        t.push(b);
    }
    let len = if n <= 2 { 6 } else if n <= 4 { 12 } else { 24 };
    while t.len() < len {
        t.push(0);
    }
    (palette_of(p), t)
}

/// Any step with a palette of some colors
fn any_step(m: &mut TMon, n: usize) -> Step {
    let (p, t) = palette(n);
    indexed(m, n, p, t)
}

/// Any step with some palette
fn indexed(m: &mut TMon, n: usize, p: Palette, t: Vec<u8>) -> Step {
    let (w, h): (i32, i32) = any_val();
    assume(w >= 0 && h >= 0);
    let b = any_bytes();
    assume(b.len() == w as usize * h as usize);
    m.w = w as u32;
    m.h = h as u32;
    m.data = b.clone();
    m.colors = n;
    m.table = t;
    m.disposal = 0;
    m.transparent = None;
    m.delay = 0;
    m.wrote = false;
    let r: Raster<Gray8> = raster_bytes(w, h, b);
    Step::with_indexed(r, p)
}

/// Encode a step; false after an error
fn encode(enc: &mut StepEnc<Silent>, m: &mut TMon, s: &Step) -> bool {
    m.busy = true;
    let first = !m.pre;
    let r = enc.encode_step(s);
    m.busy = false;
    let large = m.w > 65535 || m.h > 65535;
    match r {
        Ok(()) => {
            check("E05 success only without error", m.err.is_none() && m.wrote);
            reach("E05 frame");
            true
        }
        Err(Error::Io(e)) => {
            check("E05 error is from the writer", m.err == Some(io_tag(&e)));
            reach("E05 write error");
            false
        }
        Err(Error::TryFromInt(_)) => {
            check("E05 too large for a file", large && !m.wrote && m.err.is_none());
            reach("E05 too large");
            true
        }
        Err(Error::InvalidRasterDimensions) => {
            check("E05 sizes differ", !first && (m.w != m.width || m.h != m.height));
            check("E05 no frame of another size", !m.wrote && m.err.is_none());
            reach("E05 other size");
            true
        }
        Err(_) => {
            check("E05 no other errors", false);
            false
        }
    }
}

/// Steps with palettes of some colors
fn steps(set: Option<usize>, loops: bool, a: usize, b: usize) {
    let mut m = TMon::new();
    set_world(&mut m as *mut TMon);
    let mut enc = Encoder::new(Silent).into_step_enc();
    if let Some(n) = set {
        let (p, t) = palette(n);
        enc = enc.with_global_color_table(&p);
        m.set = Some((n, t));
    }
    if loops {
        let n = any_u16();
        enc = enc.with_loop_count(n);
        m.loops = Some(n);
    }
    let s = any_step(&mut m, a);
    if encode(&mut enc, &mut m, &s) {
        loop {
            if any_bool() {
                break;
            }
            let s = any_step(&mut m, b);
            if !encode(&mut enc, &mut m, &s) {
                break;
            }
        }
    }
    check("E05 trailer is last", !m.end);
    drop(enc);
    check("E05 trailer after steps", m.end == m.pre);
    reach("E05 dropped");
}

pub fn r_encst_1() {
    steps(None, false, 1, 1);
}

pub fn r_encst_0() {
    steps(None, true, 0, 3);
}

pub fn r_encst_3() {
    steps(None, false, 3, 3);
}

pub fn r_encst_4() {
    steps(None, true, 4, 2);
}

pub fn r_encst_2() {
    steps(None, false, 2, 2);
}

pub fn r_encst_set3() {
    steps(Some(3), false, 3, 3);
}

pub fn r_encst_set() {
    steps(Some(2), true, 2, 1);
}

pub fn r_encst_set31() {
    steps(Some(3), false, 1, 2);
}

pub fn r_encst_set14() {
    steps(Some(1), false, 4, 3);
}

/// Palettes of more than `a` and at most `b` colors
fn lengths(a: usize, b: usize) {
    let mut m = TMon::new();
    m.exact = false;
    m.sized = b <= 256;
    set_world(&mut m as *mut TMon);
    let mut enc = Encoder::new(Silent).into_step_enc();
    let c: Vec<SRgb8> = any_val();
    assume(c.len() > a && c.len() <= b);
    let n = c.len();
    let s = indexed(&mut m, n, palette_of(c), vec![]);
    encode(&mut enc, &mut m, &s);
    reach("E05 palette");
}

pub fn r_encst_len_1() {
    lengths(4, 8);
}

pub fn r_encst_len_2() {
    lengths(8, 16);
}

pub fn r_encst_len_3() {
    lengths(16, 32);
}

pub fn r_encst_len_4() {
    lengths(32, 64);
}

pub fn r_encst_len_5() {
    lengths(64, 128);
}

pub fn r_encst_len_6() {
    lengths(128, 256);
}

pub fn r_encst_len_7() {
    lengths(256, isize::MAX as usize / 3);
}

pub fn r_encst_none() {
    let mut m = TMon::new();
    set_world(&mut m as *mut TMon);
    let enc = Encoder::new(Silent).into_step_enc();
    drop(enc);
    check("E05 nothing without steps", !m.pre && !m.end);
    reach("E05 empty");
}

/// Three-bit code of a disposal method
pub fn code(d: DisposalMethod) -> u8 {
    match d {
        DisposalMethod::NoAction => 0,
        DisposalMethod::Keep => 1,
        DisposalMethod::Background => 2,
        DisposalMethod::Previous => 3,
        DisposalMethod::Reserved(n) => n & 7,
    }
}

/// Change one setting
fn set(s: Step, m: &mut TMon, k: u8) -> Step {
    let s = match k {
        0 => {
            let d: DisposalMethod = any_val();
            m.disposal = code(d);
            s.with_disposal_method(d)
        }
        1 => {
            let t = if any_bool() { Some(any_u8()) } else { None };
            m.transparent = t;
            s.with_transparent_color(t)
        }
        _ => {
            let y = if any_bool() { Some(any_u16()) } else { None };
            m.delay = y.unwrap_or(0);
            s.with_delay_time_cs(y)
        }
    };
    check("A04 transparent color", s.transparent_color() == m.transparent);
    check("A04 delay", s.delay_time_cs().unwrap_or(0) == m.delay);
    reach("A04 set");
    s
}

/// Settings in some order, then one of them again
fn settings(local: bool, a: u8, b: u8, c: u8, d: u8) {
    let mut m = TMon::new();
    set_world(&mut m as *mut TMon);
    let mut enc = Encoder::new(Silent).into_step_enc();
    if local {
        // the table of the step is mostly another one
        let (p, t) = palette(1);
        enc = enc.with_global_color_table(&p);
        m.set = Some((1, t));
    }
    let mut s = any_step(&mut m, 1);
    if any_bool() {
        s = set(s, &mut m, a);
    }
    if any_bool() {
        s = set(s, &mut m, b);
    }
    if any_bool() {
        s = set(s, &mut m, c);
    }
    if any_bool() {
        s = set(s, &mut m, d);
    }
    encode(&mut enc, &mut m, &s);
}

pub fn r_settings_0120() {
    settings(true, 0, 1, 2, 0);
}

pub fn r_settings_0121() {
    settings(false, 0, 1, 2, 1);
}

pub fn r_settings_0210() {
    settings(false, 0, 2, 1, 0);
}

pub fn r_settings_0212() {
    settings(false, 0, 2, 1, 2);
}

pub fn r_settings_1020() {
    settings(false, 1, 0, 2, 0);
}

pub fn r_settings_1021() {
    settings(false, 1, 0, 2, 1);
}

pub fn r_settings_1201() {
    settings(false, 1, 2, 0, 1);
}

pub fn r_settings_1202() {
    settings(false, 1, 2, 0, 2);
}

pub fn r_settings_2010() {
    settings(false, 2, 0, 1, 0);
}

pub fn r_settings_2012() {
    settings(false, 2, 0, 1, 2);
}

pub fn r_settings_2101() {
    settings(true, 2, 1, 0, 1);
}

pub fn r_settings_2102() {
    settings(false, 2, 1, 0, 2);
}
