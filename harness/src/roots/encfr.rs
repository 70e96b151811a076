//! Encoding of frames
use crate::ai::*;
use crate::encmon::*;
use gift::block::*;
use gift::{Encoder, Error};

/// Result of a call in order; false after an error
fn accepted(m: &mut EncMon, r: Result<(), Error>) -> bool {
    match r {
        Ok(()) => {
            check("E03 success only without write error", m.err.is_none());
            check("E04 all blocks are written", m.due == Due::Idle);
            reach("E04 accepted");
            true
        }
        Err(Error::Io(e)) => {
            check("E03 error is from the writer", m.err == Some(io_tag(&e)));
            false
        }
        Err(_) => {
            check("E04 call in order is accepted", false);
            false
        }
    }
}

/// Result of a call out of order
fn refused(r: Result<(), Error>) {
    check("E04 call out of order is refused", matches!(r, Err(Error::InvalidBlockSequence)));
    reach("E04 refused");
}

pub fn r_enc_frames() {
    keep_compressed();
    let mut m = EncMon::new(any_blocks(), any_blocks());
    let p = &mut m as *mut EncMon;
    let mut enc = Encoder::new(EncSink { mon: p }).into_frame_enc();
    let mut pre = false;
    let mut end = false;
    loop {
        match any_u8() {
            0 => {
                let b: Preamble = any_blocks();
                if pre {
                    refused(enc.encode_preamble(&b));
                } else {
                    m.pre = b;
                    m.start_preamble();
                    let b = unsafe { &(*p).pre };
                    if !accepted(&mut m, enc.encode_preamble(b)) {
                        return;
                    }
                    pre = true;
                }
            }
            1 => {
                let f: Frame = any_blocks();
                if pre && !end {
                    m.frame = f;
                    m.start_frame();
                    let f = unsafe { &(*p).frame };
                    if !accepted(&mut m, enc.encode_frame(f)) {
                        return;
                    }
                    keep_compressed();
                } else {
                    refused(enc.encode_frame(&f));
                }
            }
            _ => {
                if pre && !end {
                    m.start_trailer();
                    if !accepted(&mut m, enc.encode_trailer()) {
                        return;
                    }
                    end = true;
                } else {
                    refused(enc.encode_trailer());
                }
            }
        }
    }
}
