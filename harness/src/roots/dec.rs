//! Decoding of blocks
use crate::ai::*;
use crate::mon::*;
use gift::Decoder;
use gift::block::*;

fn blocks(max: Option<usize>, default: bool) {
    let mut m = Mon::new(max);
    let p = &mut m as *mut Mon;
    let mut d = Decoder::new(Src { mon: p });
    if !default {
        d = d.max_image_sz(max);
    }
    let mut it = d.into_blocks();
    loop {
        m.begin();
        match it.next() {
            Some(Ok(b)) => {
                let done = matches!(b, Block::Trailer(_));
                m.block(b);
                if done {
                    check("D03 end after trailer", it.next().is_none());
                    check("D11 nothing read after trailer", !m.over);
                    reach("D03 trailer");
                    return;
                }
                m.end();
            }
            Some(Err(e)) => {
                m.error(e);
                check("D03 end after error", it.next().is_none());
                reach("D03 error");
                return;
            }
            None => {
                check("D08 no early end", false);
                return;
            }
        }
    }
}

pub fn r_blocks() {
    blocks(None, false);
}

pub fn r_blocks_max() {
    blocks(Some(any_usize()), false);
}

pub fn r_blocks_default() {
    blocks(Some(1 << 25), true);
}
