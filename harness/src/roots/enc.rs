//! Encoding
use crate::ai::*;
use crate::io::{DataPart, DataSink, ExtSink, Part, Sink};
use gift::block::*;
use gift::{Encoder, Error};

/// Encode one block
fn encode<B: Into<Block>>(s: &mut Sink, b: B) -> bool {
    let r = Encoder::new(&mut *s).into_block_enc().encode(b);
    result(s, r)
}

/// Check the result of a call
fn result(s: &Sink, r: Result<(), Error>) -> bool {
    match r {
        Ok(()) => {
            check("E03 success only without write error", s.err.is_none());
            true
        }
        Err(Error::Io(e)) => {
            check("E03 error is from the writer", s.err == Some(io_tag(&e)));
            reach("E03 error");
            false
        }
        Err(_) => {
            check("E03 error is an I/O error", s.err.is_none());
            check("E01 no other error", false);
            false
        }
    }
}

pub fn r_enc_header() {
    let v = [any_u8(), any_u8(), any_u8()];
    let mut s = Sink::new();
    if encode(&mut s, Header::with_version(v)) {
        check("E01 header", s.out[..] == [b'G', b'I', b'F', v[0], v[1], v[2]]);
        reach("E01 header");
    }
}

pub fn r_enc_screen() {
    let (w, h, f, b, a) = (any_u16(), any_u16(), any_u8(), any_u8(), any_u8());
    let d = LogicalScreenDesc::default()
        .with_screen_width(w)
        .with_screen_height(h)
        .with_flags(f)
        .with_background_color_idx(b)
        .with_pixel_aspect_ratio(a);
    let mut s = Sink::new();
    if encode(&mut s, d) {
        check("E01 screen descriptor", s.out[..] == [w as u8, (w >> 8) as u8, h as u8, (h >> 8) as u8, f, b, a]);
        reach("E01 screen descriptor");
    }
}

pub fn r_enc_image() {
    let (l, t, w, h, f) = (any_u16(), any_u16(), any_u16(), any_u16(), any_u8());
    let d = ImageDesc::default().with_left(l).with_top(t).with_width(w).with_height(h).with_flags(f);
    let mut s = Sink::new();
    if encode(&mut s, d) {
        check(
            "E01 image descriptor",
            s.out[..] == [0x2C, l as u8, (l >> 8) as u8, t as u8, (t >> 8) as u8, w as u8, (w >> 8) as u8, h as u8, (h >> 8) as u8, f],
        );
        reach("E01 image descriptor");
    }
}

pub fn r_enc_control() {
    let (f, d, t) = (any_u8(), any_u16(), any_u8());
    let mut g = GraphicControl::default();
    g.set_flags(f);
    g.set_delay_time_cs(d);
    g.set_transparent_color_idx(t);
    let mut s = Sink::new();
    if encode(&mut s, g) {
        check("E01 graphic control", s.out[..] == [0x21, 0xF9, 4, f, d as u8, (d >> 8) as u8, t, 0]);
        reach("E01 graphic control");
    }
}

pub fn r_enc_trailer() {
    let mut s = Sink::new();
    if encode(&mut s, Trailer::default()) {
        check("E01 trailer", s.out[..] == [0x3B]);
        reach("E01 trailer");
    }
}

/// Bytes of any color table
fn any_table() -> Vec<u8> {
    let t = any_bytes();
    assume(t.len() % 3 == 0);
    t
}

pub fn r_enc_global() {
    let t = any_table();
    let mut s = Sink::new();
    if encode(&mut s, GlobalColorTable::with_colors(&t)) {
        check("E01 global table", s.out == t);
        reach("E01 global table");
    }
}

pub fn r_enc_local() {
    let t = any_table();
    let mut s = Sink::new();
    if encode(&mut s, LocalColorTable::with_colors(&t)) {
        check("E01 local table", s.out == t);
        reach("E01 local table");
    }
}

/// Encode an extension
fn encode_ext<B: Into<Block>>(label: u8, entries: &Vec<Vec<u8>>, b: B) {
    let mut s = ExtSink { lead: [0x21, label], entries, part: Part::Lead, k: 0, pos: 0, err: None };
    let r = Encoder::new(&mut s).into_block_enc().encode(b);
    match r {
        Ok(()) => {
            check("E03 success only without write error", s.err.is_none());
            check("E02 all written", s.done());
            reach("E02 written");
        }
        Err(Error::Io(e)) => check("E03 error is from the writer", s.err == Some(io_tag(&e))),
        Err(_) => check("E02 no other error", false),
    }
}

pub fn r_enc_comment() {
    let entries = any_entries();
    let mut b = Comment::default();
    for e in &entries {
        b.add_comment(e);
    }
    encode_ext(0xFE, &entries, b);
}

pub fn r_enc_text() {
    let entries = any_entries();
    let mut b = PlainText::default();
    for e in &entries {
        b.add_sub_block(e);
    }
    encode_ext(0x01, &entries, b);
}

pub fn r_enc_app() {
    let entries = any_entries();
    let mut b = Application::default();
    for e in &entries {
        b.add_app_data(e);
    }
    encode_ext(0xFF, &entries, b);
}

pub fn r_enc_unknown() {
    let entries = any_entries();
    let id = any_u8();
    let mut b = Unknown::default();
    b.add_sub_block(&[id]);
    for e in &entries {
        b.add_sub_block(e);
    }
    encode_ext(id, &entries, b);
}

pub fn r_enc_data() {
    keep_compressed();
    let d: ImageData = any_val();
    let c = d.clone();
    let i = any_usize();
    let x = if i < d.data().len() { Some(d.data()[i]) } else { None };
    if let Some(x) = x {
        focus(i, x);
    }
    let mut s = DataSink { code: 0, part: DataPart::Code, n: 0, due: 0 };
    let r = Encoder::new(&mut s).into_block_enc().encode(d);
    check("E06 no error", r.is_ok());
    check("E06 all written", s.part == DataPart::End && s.n == compressed().len());
    check("E06 all indices compressed", compressed_from()[..] == c.data()[..]);
    if let Some(x) = x {
        check("E06 index fits code size", (x as usize) < 1usize << s.code);
        reach("E06 index");
    }
    reach("E06 written");
}
