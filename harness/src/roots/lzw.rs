//! Decompression of image data
use crate::ai::*;
use gift::Decoder;
use gift::block::*;
use std::io::{self, Read};

/// Reader of one image with any data
struct LSrc {
    start: [u8; 23],
    code: u8,
    input: Vec<u8>,
    n_start: usize,
    pos: usize,
}

impl Read for LSrc {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len();
        if n == 0 {
            return Ok(0);
        }
        if self.n_start < 23 {
            assume(n <= 23 - self.n_start);
            buf.copy_from_slice(&self.start[self.n_start..self.n_start + n]);
            self.n_start += n;
            return Ok(n);
        }
        if self.n_start == 23 {
            self.n_start = 24;
            buf[0] = self.code;
            return Ok(1);
        }
        if any_bool() {
            return Ok(0);
        }
        assume(n <= self.input.len() && self.pos <= self.input.len() - n);
        buf.copy_from_slice(&self.input[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn lzw(code: u8, bits: u8) {
    exact_lzw();
    let src = LSrc {
        start: [
            b'G', b'I', b'F', b'8', b'9', b'a',
            any_u8(), any_u8(), any_u8(), any_u8(), 0, 0, 0,
            0x2C, any_u8(), any_u8(), any_u8(), any_u8(), any_u8(), any_u8(), any_u8(), any_u8(), 0,
        ],
        code,
        input: any_bytes(),
        n_start: 0,
        pos: 0,
    };
    let mut it = Decoder::new(src).max_image_sz(None).into_blocks();
    let header = matches!(it.next(), Some(Ok(Block::Header(_))));
    let screen = matches!(it.next(), Some(Ok(Block::LogicalScreenDesc(_))));
    let image = matches!(it.next(), Some(Ok(Block::ImageDesc(_))));
    check("D18 blocks before image data", header && screen && image);
    match it.next() {
        Some(Ok(Block::ImageData(b))) => {
            let i = any_usize();
            if i < b.data().len() {
                check("D18 index fits code size", (b.data()[i] as usize) < 1 << bits);
                reach("D18 image data");
            }
        }
        Some(Ok(_)) => check("D18 image data is returned", false),
        Some(Err(_)) => (),
        None => check("D18 image data or error", false),
    }
}

pub fn r_lzw_2() {
    lzw(2, 2);
}

pub fn r_lzw_3() {
    lzw(3, 3);
}

pub fn r_lzw_8() {
    lzw(8, 8);
}
