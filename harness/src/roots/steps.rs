//! Decoding of steps
use crate::ai::*;
use crate::smon::*;
use gift::Decoder;
use gift::{Error, Step};
use gift::block::*;
use pix::rgb::SRgba8;
use std::io;

fn step_error(m: &SMon, e: Error) {
    match e {
        Error::Io(e) => check("D15 error of the frame iterator", m.last == Last::Error && m.tag == io_tag(&e)),
        Error::InvalidFrameDimensions => {
            check("D15 frame is not on the screen", m.last == Last::Frame && m.fate == Fate::Outside);
            reach("D15 dimension error");
        }
        Error::MissingColorTable => {
            check("D15 frame has no table", m.last == Last::Frame && m.fate == Fate::NoTable);
            reach("D15 table error");
        }
        Error::InvalidColorIndex => {
            check("D15 frame with table", m.last == Last::Frame && m.fate != Fate::Outside && m.fate != Fate::NoTable);
            check("D15 index is beyond the table", m.tables != Tables::Full);
            reach("D15 index error");
        }
        Error::InvalidRasterDimensions => {
            check("D15 screen is empty", m.width == 0 || m.height == 0);
        }
        Error::TooLargeImage => {
            let n = m.width as usize * m.height as usize;
            check("D04 screen is too large", n > m.limit);
            reach("D04 screen error");
        }
        _ => check("D15 no other error", false),
    }
}

pub fn r_steps_start() {
    first();
}

pub fn r_steps_clear() {
    step(Tables::Global, Kind::Clear);
}

pub fn r_steps_wide() {
    step(Tables::Global, Kind::Wide);
}

pub fn r_steps_high() {
    step(Tables::Global, Kind::High);
}

pub fn r_steps_thin() {
    step(Tables::Global, Kind::Thin);
}

pub fn r_steps_flat() {
    step(Tables::Global, Kind::Flat);
}

pub fn r_steps_no_table() {
    step(Tables::Neither, Kind::Plain);
}

pub fn r_steps_plain_both() {
    step(Tables::Both, Kind::Plain);
}

pub fn r_steps_plain_full() {
    step(Tables::Full, Kind::Plain);
}

pub fn r_steps_keep_full() {
    step(Tables::Full, Kind::Keep);
}

pub fn r_steps_left() {
    step(Tables::Global, Kind::Left);
}

pub fn r_steps_right() {
    step(Tables::Global, Kind::Right);
}

pub fn r_steps_above() {
    step(Tables::Global, Kind::Above);
}

pub fn r_steps_below() {
    step(Tables::Global, Kind::Below);
}

pub fn r_steps_plain_global() {
    step(Tables::Global, Kind::Plain);
}

pub fn r_steps_plain_local() {
    step(Tables::Local, Kind::Plain);
}

pub fn r_steps_keep_global() {
    step(Tables::Global, Kind::Keep);
}

pub fn r_steps_keep_local() {
    step(Tables::Local, Kind::Keep);
}

pub fn r_steps_background() {
    step(Tables::Global, Kind::Background);
}

pub fn r_steps_previous() {
    step(Tables::Global, Kind::Previous);
}

/// One frame, on any raster
fn step(tables: Tables, kind: Kind) {
    let max = None;
    let mut m = SMon::new(max, tables, kind);
    hasty_bounds();
    set_world(&mut m as *mut SMon);
    let mut it = Decoder::new(io::empty()).max_image_sz(max).into_steps();
    let base = m.clear;
    match it.next() {
        Some(Ok(s)) => {
            let base = one(&mut m, s, base);
            // what is left after the frame
            m.kind = Kind::Probe;
            match it.next() {
                Some(Ok(s)) => {
                    one(&mut m, s, base);
                }
                _ => check("D15 step for next frame", false),
            }
        }
        Some(Err(e)) => {
            step_error(&m, e);
            check("D03 steps end after error", it.next().is_none());
            check("D03 steps stay ended after error", it.next().is_none());
        }
        None => check("D15 step for every frame", false),
    }
}

/// Files without frames
fn first() {
    let max = if any_bool() { Some(any_usize()) } else { None };
    let mut m = SMon::new(max, Tables::Global, Kind::Start);
    hasty_bounds();
    set_world(&mut m as *mut SMon);
    let mut it = Decoder::new(io::empty()).max_image_sz(max).into_steps();
    match it.next() {
        Some(Ok(_)) => check("D15 step without frame", false),
        Some(Err(e)) => {
            step_error(&m, e);
            check("D03 steps end after error", it.next().is_none());
            check("D03 steps stay ended after error", it.next().is_none());
        }
        None => {
            check("D15 end of frames", m.last == Last::End);
            reach("D15 end");
        }
    }
}

fn one(m: &mut SMon, s: Step, base: SRgba8) -> SRgba8 {
    m.flush();
    check("D15 step is made for a frame", m.last == Last::Frame);
    check("D15 frame on the screen with a table", m.fate != Fate::Outside && m.fate != Fate::NoTable);
    check("D04 screen within the limit", m.width as usize * m.height as usize <= m.limit);
    let r = s.raster();
    check("D15 size of raster", r.width() == m.width as u32 && r.height() == m.height as u32);
    assume(m.x < m.width && m.y < m.height);
    let px = listed(unsafe { *raster_px(r as *const _ as *mut _) });
    let f = m.frame.as_ref().unwrap();
    if !f.image_desc.interlaced() {
        match m.fate {
            Fate::Beside => {
                check("D15 pixel of the frame is looked at", !m.within);
                check("D15 pixel outside the frame", px == base);
            }
            Fate::Transparent => {
                check("D15 transparent pixel is in the frame", m.within);
                check("D15 transparent pixel", px == base);
                reach("D15 transparent");
            }
            Fate::Color => {
                check("D15 colored pixel is in the frame", m.within);
                let c = m.color;
                check("D15 color of pixel", px == SRgba8::new(c[0], c[1], c[2], 255));
                reach("D15 color");
            }
            _ => check("D15 index error is returned", false),
        }
    }
    check("D17 transparent color", s.transparent_color() == f.transparent_color());
    let d = f.graphic_control_ext.map_or(0, |g| g.delay_time_cs());
    check("D17 delay", s.delay_time_cs().unwrap_or(0) == d);
    check("D17 no delay without graphic control", f.graphic_control_ext.is_some() || s.delay_time_cs().is_none());
    let base = match f.disposal_method() {
        DisposalMethod::Previous => base,
        DisposalMethod::Background if m.within => listed(SRgba8::default()),
        _ => px,
    };
    m.reset();
    base
}

/// Step of a list of frames
fn play(m: &mut SMon, s: Step, k: usize) {
    let r = s.raster();
    let px: SRgba8 = listed(unsafe { *raster_px(r as *const _ as *mut _) });
    let c = m.global.as_ref().unwrap().colors();
    let c = SRgba8::new(c[3 * k], c[3 * k + 1], c[3 * k + 2], 255);
    check("D16 raster of step", px == c);
    check("D16 delay of step", s.delay_time_cs().unwrap_or(0) == m.delays[k]);
    reach("D16 step");
}

/// Play all frames of a list
fn pass(it: &mut gift::decode::Steps<io::Empty>, m: &mut SMon, n: usize) {
    for k in 0..n {
        match it.next() {
            Some(Ok(s)) => play(m, s, k),
            _ => check("D16 every step in order", false),
        }
    }
}

/// Play a list of frames, possibly followed by an error
fn repeat(n: usize, fails: bool, looping: bool) {
    abstract_loop_count();
    short_loops();
    let mut m = SMon::new(None, Tables::Global, Kind::Listed);
    m.x = 0;
    m.y = 0;
    let c = any_bytes();
    assume(c.len() == 24);
    m.global = Some(GlobalColorTable::with_colors(&c));
    for _ in 0..n {
        let d = any_u16();
        assume(d > 0);
        m.delays.push(d);
    }
    m.fails = fails;
    m.ext = if any_bool() { Some(listed(any_val())) } else { None };
    let mut more = match &m.ext {
        Some(e) => e.loop_count(),
        None => None,
    };
    set_world(&mut m as *mut SMon);
    let dec = Decoder::new(io::empty());
    let mut it = if looping { dec.into_iter() } else { dec.into_steps() };
    pass(&mut it, &mut m, n);
    if fails {
        match it.next() {
            Some(Err(Error::Io(e))) => check("D16 error of the file", io_tag(&e) == m.tag),
            _ => check("D16 error after the steps", false),
        }
        reach("D16 error");
    } else if looping && n > 0 {
        loop {
            match more {
                None => break,
                Some(0) => (),
                Some(1) => more = None,
                Some(n) => more = Some(n - 1),
            }
            pass(&mut it, &mut m, n);
            reach("D16 repeated");
        }
    }
    check("D16 end after the last step", it.next().is_none());
    check("D16 still at end", it.next().is_none());
    reach("D16 end");
}

pub fn r_play_0() {
    repeat(0, false, true);
}

pub fn r_play_1() {
    repeat(1, false, true);
}

pub fn r_play_2() {
    repeat(2, false, true);
}

pub fn r_play_3() {
    repeat(3, false, true);
}

pub fn r_play_0_error() {
    repeat(0, true, true);
}

pub fn r_play_1_error() {
    repeat(1, true, true);
}

pub fn r_play_2_error() {
    repeat(2, true, true);
}

pub fn r_play_once() {
    repeat(2, false, false);
}

pub fn r_play_once_error() {
    repeat(2, true, false);
}

pub fn r_play_8() {
    repeat(8, false, true);
}

pub fn r_play_7_error() {
    repeat(7, true, true);
}
