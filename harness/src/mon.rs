//! Reader which follows the GIF grammar of the bytes it hands out
use crate::ai::*;
use gift::Error;
use gift::block::*;
use std::io::{self, Read};

/// Unit of the grammar being read
#[derive(Clone, Copy, PartialEq)]
pub enum Ph {
    Header,
    Screen,
    Table,
    Code,
    Label,
    Image,
    MinCode,
    SubLen,
    SubData,
    /// Block is complete
    End,
    /// Invalid block code
    Bad,
}

/// Kind of block being read
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Header,
    Screen,
    Global,
    Plain,
    Control,
    Comment,
    App,
    Unknown,
    Image,
    Local,
    Data,
    Trailer,
    None,
}

/// Verdict on a header or image descriptor
#[derive(Clone, Copy, PartialEq)]
pub enum Verdict {
    None,
    Good,
    NotGif,
    Version,
    TooLarge,
}

pub struct Mon {
    /// All input bytes from the start of the block
    pub input: Vec<u8>,
    /// Number of bytes handed out since the start of the block
    pub pos: usize,
    /// Unit being read
    pub ph: Ph,
    /// Position of unit
    pub at: usize,
    /// Number of bytes of unit not read yet
    pub want: usize,
    /// Kind of block
    pub kind: Kind,
    /// Extension label
    pub label: u8,
    /// Fields of last graphic control sub-block
    pub flags: u8,
    pub delay: u16,
    pub color: u8,
    /// Graphic control sub-blocks: none, good, bad
    pub ctl: u8,
    /// Sub-blocks
    pub subs: Vec<Vec<u8>>,
    /// Size of last image
    pub size: usize,
    /// Maximum image size
    pub max: Option<usize>,
    pub verdict: Verdict,
    /// Reader reported end
    pub eof: bool,
    /// Reader reported error
    pub err: Option<u32>,
    /// Bytes were read after end of block
    pub over: bool,
}

fn u16_at(b: &[u8], i: usize) -> u16 {
    b[i] as u16 + 256 * b[i + 1] as u16
}

impl Mon {
    pub fn new(max: Option<usize>) -> Self {
        Mon {
            input: Vec::new(),
            max,
            verdict: Verdict::None,
            pos: 0,
            ph: Ph::Header,
            at: 0,
            want: 6,
            kind: Kind::Header,
            label: 0,
            flags: 0,
            delay: 0,
            color: 0,
            ctl: 0,
            subs: Vec::new(),
            size: 0,
            eof: false,
            err: None,
            over: false,
        }
    }

    fn unit(&mut self, ph: Ph, want: usize) {
        self.ph = ph;
        self.at = self.pos;
        self.want = want;
    }

    /// Bytes are handed out
    fn feed(&mut self, mut n: usize) {
        if n < self.want {
            self.pos += n;
            self.want -= n;
            return;
        }
        if n == self.want {
            self.pos += n;
            self.want = 0;
            self.unit_done();
            return;
        }
        while n > 0 {
            if self.want == 0 {
                self.over = true;
                self.pos += n;
                return;
            }
            let k = if n < self.want { n } else { self.want };
            self.pos += k;
            self.want -= k;
            n -= k;
            if self.want == 0 {
                self.unit_done();
            }
        }
    }

    fn unit_done(&mut self) {
        match self.ph {
            Ph::Code => match self.input[self.at] {
                0x21 => self.unit(Ph::Label, 1),
                0x2C => {
                    self.kind = Kind::Image;
                    self.unit(Ph::Image, 9);
                }
                0x3B => {
                    self.kind = Kind::Trailer;
                    self.ph = Ph::End;
                }
                _ => self.ph = Ph::Bad,
            },
            Ph::Label => {
                self.label = self.input[self.at];
                self.kind = match self.label {
                    0x01 => Kind::Plain,
                    0xF9 => Kind::Control,
                    0xFE => Kind::Comment,
                    0xFF => Kind::App,
                    _ => Kind::Unknown,
                };
                self.unit(Ph::SubLen, 1);
            }
            Ph::MinCode => self.unit(Ph::SubLen, 1),
            Ph::SubLen => match self.input[self.at] {
                0 => self.ph = Ph::End,
                n => self.unit(Ph::SubData, n as usize),
            },
            Ph::SubData => {
                match self.kind {
                    Kind::Data => (),
                    Kind::Control => {
                        if self.pos - self.at == 4 && self.ctl < 2 {
                            let p = self.at;
                            self.ctl = 1;
                            self.flags = self.input[p];
                            self.delay = u16_at(&self.input, p + 1);
                            self.color = self.input[p + 3];
                        } else {
                            self.ctl = 2;
                        }
                    }
                    _ => self.subs.push(self.input[self.at..self.pos].to_vec()),
                }
                self.unit(Ph::SubLen, 1);
            }
            Ph::Header => {
                let x = &self.input;
                let p = self.at;
                self.verdict = if x[p] != b'G' || x[p + 1] != b'I' || x[p + 2] != b'F' {
                    Verdict::NotGif
                } else if x[p + 3] == b'8' && x[p + 5] == b'a' && (x[p + 4] == b'7' || x[p + 4] == b'9') {
                    Verdict::Good
                } else {
                    Verdict::Version
                };
                self.ph = Ph::End;
            }
            Ph::Image => {
                let w = u16_at(&self.input, self.at + 4) as usize;
                let h = u16_at(&self.input, self.at + 6) as usize;
                self.size = w * h;
                self.verdict = match self.max {
                    Some(m) if self.size > m => Verdict::TooLarge,
                    _ => Verdict::Good,
                };
                self.ph = Ph::End;
            }
            _ => self.ph = Ph::End,
        }
    }

    /// The next block starts
    pub fn begin(&mut self) {
        self.input = any_bytes();
    }

    /// The block is complete
    pub fn end(&mut self) {
        self.input = Vec::new();
        self.subs = Vec::new();
        self.pos = 0;
        self.at = 0;
        self.label = 0;
        self.flags = 0;
        self.delay = 0;
        self.color = 0;
        self.ctl = 0;
        self.verdict = Verdict::None;
    }

    /// Expect a table, else the next block
    fn expect_table(&mut self, kind: Kind, flags: u8) -> bool {
        if flags & 0x80 != 0 {
            self.kind = kind;
            self.unit(Ph::Table, 3 * (2usize << (flags & 7)));
            true
        } else {
            false
        }
    }

    fn expect_code(&mut self) {
        self.kind = Kind::None;
        self.unit(Ph::Code, 1);
    }

    fn expect_data(&mut self) {
        self.kind = Kind::Data;
        self.unit(Ph::MinCode, 1);
    }

    /// A block was returned
    pub fn block(&mut self, b: Block) {
        check("D10 no block after end of input", !self.eof);
        check("D10 no block after reader error", self.err.is_none());
        check("D11 no byte read after the end of the block", !self.over);
        check("D11 all bytes of the block read", self.ph == Ph::End);
        let done = self.ph == Ph::End;
        let table = self.kind == Kind::Global || self.kind == Kind::Local;
        check("D07 color table returned iff announced",
            table == matches!(b, Block::GlobalColorTable(_) | Block::LocalColorTable(_)));
        let x = &self.input;
        let p = self.at;
        match b {
            Block::Header(b) => {
                check("D08 header expected", self.kind == Kind::Header);
                check("D05 header is GIF87a or GIF89a", self.verdict == Verdict::Good);
                check("D05 version bytes", b.version() == [x[p + 3], x[p + 4], x[p + 5]]);
                reach("D05 header");
                self.kind = Kind::Screen;
                self.unit(Ph::Screen, 7);
            }
            Block::LogicalScreenDesc(b) => {
                check("D08 screen descriptor expected", self.kind == Kind::Screen);
                check("D06 screen width", b.screen_width() == u16_at(x, p));
                check("D06 screen height", b.screen_height() == u16_at(x, p + 2));
                check("D06 screen flags", b.flags() == x[p + 4]);
                check("D06 background color", b.background_color_idx() == x[p + 5]);
                check("D06 aspect ratio", b.pixel_aspect_ratio() == x[p + 6]);
                reach("D06 screen descriptor");
                if !self.expect_table(Kind::Global, b.flags()) {
                    self.expect_code();
                }
            }
            Block::GlobalColorTable(b) => {
                check("D08 global color table expected", self.kind == Kind::Global);
                check("D07 global color table announced", self.kind == Kind::Global);
                check("D07 global color table complete", done);
                check("D07 global color table bytes", b.colors()[..] == x[p..self.pos]);
                reach("D07 global color table");
                self.expect_code();
            }
            Block::ImageDesc(b) => {
                check("D08 image descriptor expected", self.kind == Kind::Image);
                check("D06 left", b.left() == u16_at(x, p));
                check("D06 top", b.top() == u16_at(x, p + 2));
                check("D06 width", b.width() == u16_at(x, p + 4));
                check("D06 height", b.height() == u16_at(x, p + 6));
                check("D06 image flags", b.flags() == x[p + 8]);
                reach("D06 image descriptor");
                check("D04 image within the limit", self.verdict == Verdict::Good);
                if self.max.is_none() {
                    reach("D04 no limit");
                }
                if !self.expect_table(Kind::Local, b.flags()) {
                    self.expect_data();
                }
            }
            Block::LocalColorTable(b) => {
                check("D08 local color table expected", self.kind == Kind::Local);
                check("D07 local color table announced", self.kind == Kind::Local);
                check("D07 local color table complete", done);
                check("D07 local color table bytes", b.colors()[..] == x[p..self.pos]);
                reach("D07 local color table");
                self.expect_data();
            }
            Block::ImageData(b) => {
                check("D08 image data expected", self.kind == Kind::Data);
                check("D12 image data complete", done);
                check("D12 image data size", b.data().len() == self.size);
                reach("D12 image data");
                self.size = 0;
                self.expect_code();
            }
            Block::GraphicControl(b) => {
                check("D08 graphic control label", self.kind == Kind::Control);
                check("D09 graphic control has four bytes", self.ctl < 2);
                if self.ctl == 1 {
                    check("D06 control flags", b.flags() == self.flags);
                    check("D06 delay time", b.delay_time_cs() == self.delay);
                    check("D06 transparent color", b.transparent_color_idx() == self.color);
                    reach("D06 graphic control");
                }
                self.expect_code();
            }
            Block::PlainText(b) => {
                check("D08 plain text label", self.kind == Kind::Plain);
                check("D09 plain text complete", done);
                check("D09 plain text sub-blocks", *b.sub_blocks() == self.subs);
                reach("D09 plain text");
                self.expect_code();
            }
            Block::Comment(b) => {
                check("D08 comment label", self.kind == Kind::Comment);
                check("D09 comment complete", done);
                check("D09 comment sub-blocks", *b.comments() == self.subs);
                reach("D09 comment");
                self.expect_code();
            }
            Block::Application(b) => {
                check("D08 application label", self.kind == Kind::App);
                check("D09 application complete", done);
                check("D09 application sub-blocks", *b.app_data() == self.subs);
                reach("D09 application");
                self.expect_code();
            }
            Block::Unknown(b) => {
                check("D08 unknown label", self.kind == Kind::Unknown);
                check("D09 unknown label", b.ext_id()[..] == [self.label]);
                check("D09 unknown complete", done);
                check("D09 unknown sub-blocks", b.sub_blocks()[..] == self.subs[..]);
                reach("D09 unknown");
                self.expect_code();
            }
            Block::Trailer(_) => {
                check("D08 trailer code", self.kind == Kind::Trailer);
                reach("D08 trailer");
            }
        }
    }

    /// An error was returned
    pub fn error(&mut self, e: Error) {
        let x = &self.input;
        let p = self.at;
        match &e {
            Error::Io(_) => (),
            _ => check("D10 reader error is returned", self.err.is_none()),
        }
        match &e {
            Error::UnexpectedEndOfFile => (),
            _ => check("D10 end of input is returned", !self.eof),
        }
        match e {
            Error::Io(e) => {
                check("D10 error is from the reader", self.err == Some(io_tag(&e)));
                reach("D10 reader error");
            }
            Error::UnexpectedEndOfFile => {
                check("D10 end of input inside a block", self.eof);
                reach("D10 end of input");
            }
            Error::MalformedHeader => {
                check("D05 header complete", self.kind == Kind::Header && self.ph == Ph::End);
                check("D05 not a GIF header", self.verdict == Verdict::NotGif);
                reach("D05 malformed header");
            }
            Error::UnsupportedVersion(v) => {
                check("D05 version complete", self.kind == Kind::Header && self.ph == Ph::End);
                check("D05 version not supported", self.verdict == Verdict::Version);
                check("D05 unsupported version bytes", v == [x[p + 3], x[p + 4], x[p + 5]]);
                reach("D05 unsupported version");
            }
            Error::InvalidBlockCode => {
                check("D08 block code is invalid", self.ph == Ph::Bad);
                reach("D08 invalid block code");
            }
            Error::MalformedGraphicControlExtension => {
                check("D09 malformed graphic control", self.kind == Kind::Control && self.ctl == 2);
                reach("D09 malformed graphic control");
            }
            Error::TooLargeImage => {
                check("D04 image descriptor complete", self.kind == Kind::Image && self.ph == Ph::End);
                check("D04 image exceeds the limit", self.verdict == Verdict::TooLarge);
                reach("D04 too large image");
            }
            Error::IncompleteImageData => {
                check("D12 incomplete image data", self.kind == Kind::Data && self.ph == Ph::End);
                reach("D12 incomplete image data");
            }
            Error::InvalidLzwData => {
                check("D12 invalid image data", self.kind == Kind::Data);
                reach("D12 invalid image data");
            }
            _ => check("D08 no other error", false),
        }
    }
}

/// Reader which may fail, be interrupted, read short or end at any call
pub struct Src {
    pub mon: *mut Mon,
}

impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let m = unsafe { &mut *self.mon };
        if buf.is_empty() {
            return Ok(0);
        }
        if any_bool() {
            return Err(io_interrupted());
        }
        if any_bool() {
            let t = any_u32();
            m.err = Some(t);
            return Err(io_error(t));
        }
        if any_bool() {
            m.eof = true;
            return Ok(0);
        }
        let n = any_usize();
        assume(n > 0 && n <= buf.len());
        assume(n <= m.input.len() && m.pos <= m.input.len() - n);
        buf[..n].copy_from_slice(&m.input[m.pos..m.pos + n]);
        m.feed(n);
        Ok(n)
    }
}
