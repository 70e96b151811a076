//! Reader which assembles frames from the bytes it hands out
//!
//! Reads are never short: that blocks depend only on the bytes is shown by the
//! block properties.
use crate::ai::*;
use gift::block::*;
use std::io::{self, Read};

/// Unit of the grammar being read
#[derive(Clone, Copy, PartialEq)]
pub enum Unit {
    Header,
    Screen,
    Global,
    Code,
    Label,
    Image,
    Local,
    MinCode,
    Len,
    Data,
    /// Nothing can follow
    Stop,
}

/// Extension or image data
#[derive(Clone, Copy, PartialEq)]
pub enum Subs {
    None,
    Plain,
    Control,
    Comment,
    App,
    Unknown,
    Image,
}

/// What must be returned next
#[derive(Clone, Copy, PartialEq)]
pub enum Due {
    Nothing,
    Frame,
    Incomplete,
    Sequence,
    End,
}

pub struct FMon {
    /// Input bytes from the start of the unit group
    pub input: Vec<u8>,
    pub pos: usize,
    pub unit: Unit,
    pub want: usize,
    pub subs: Subs,
    /// Blocks of the current frame
    pub gce: Option<GraphicControl>,
    pub desc: Option<ImageDesc>,
    pub local: Option<LocalColorTable>,
    /// Extension being read
    pub ctl: GraphicControl,
    pub app: Application,
    pub com: Comment,
    /// Collected preamble, while active
    pub pre: Option<Preamble>,
    pub due: Due,
    /// Preamble is complete
    pub started: bool,
    /// Bytes were read while something was due
    pub over: bool,
    pub size: usize,
    /// Decoded image data
    pub data: Vec<u8>,
}

fn u16_at(b: &[u8], i: usize) -> u16 {
    b[i] as u16 + 256 * b[i + 1] as u16
}

impl FMon {
    pub fn new(pre: Option<Preamble>) -> Self {
        FMon {
            input: any_bytes(),
            pos: 0,
            unit: Unit::Header,
            want: 6,
            subs: Subs::None,
            gce: None,
            desc: None,
            local: None,
            ctl: GraphicControl::default(),
            app: Application::default(),
            com: Comment::default(),
            pre,
            due: Due::Nothing,
            started: false,
            over: false,
            size: 0,
            data: Vec::new(),
        }
    }

    fn go(&mut self, unit: Unit, want: usize) {
        self.unit = unit;
        self.want = want;
    }

    /// A new unit group starts: forget earlier bytes
    fn restart(&mut self, unit: Unit, want: usize) {
        self.input = any_bytes();
        self.pos = 0;
        self.unit = unit;
        self.want = want;
    }

    fn next_block(&mut self) {
        self.subs = Subs::None;
        self.restart(Unit::Code, 1);
    }

    /// Bytes are handed out
    fn feed(&mut self, mut n: usize) {
        if self.due != Due::Nothing {
            self.over = true;
        }
        if n < self.want {
            self.pos += n;
            self.want -= n;
            return;
        }
        if n == self.want {
            let at = self.pos;
            self.pos += n;
            self.want = 0;
            self.unit_done(at);
            return;
        }
        while n > 0 {
            if self.want == 0 {
                self.over = true;
                return;
            }
            let k = if n < self.want { n } else { self.want };
            let at = self.pos;
            self.pos += k;
            self.want -= k;
            n -= k;
            if self.want == 0 {
                self.unit_done(at);
            }
        }
    }

    fn unit_done(&mut self, at: usize) {
        let x = &self.input;
        match self.unit {
            Unit::Header => {
                if let Some(p) = &mut self.pre {
                    p.header = Header::with_version([x[at + 3], x[at + 4], x[at + 5]]);
                }
                self.restart(Unit::Screen, 7);
            }
            Unit::Screen => {
                let flags = x[at + 4];
                if let Some(p) = &mut self.pre {
                    p.logical_screen_desc = LogicalScreenDesc::default()
                        .with_screen_width(u16_at(x, at))
                        .with_screen_height(u16_at(x, at + 2))
                        .with_flags(flags)
                        .with_background_color_idx(x[at + 5])
                        .with_pixel_aspect_ratio(x[at + 6]);
                }
                if flags & 0x80 != 0 {
                    self.restart(Unit::Global, 3 * (2usize << (flags & 7)));
                } else {
                    self.next_block();
                }
            }
            Unit::Global => {
                if let Some(p) = &mut self.pre {
                    p.global_color_table = Some(GlobalColorTable::with_colors(&x[at..self.pos]));
                }
                self.next_block();
            }
            Unit::Code => match x[at] {
                0x21 => {
                    if self.pre.is_some() {
                        abstract_loop_count();
                    }
                    self.go(Unit::Label, 1);
                }
                0x2C => self.go(Unit::Image, 9),
                0x3B => {
                    self.due = Due::End;
                    self.restart(Unit::Stop, 0);
                }
                _ => self.restart(Unit::Stop, 0),
            },
            Unit::Label => {
                self.subs = match x[at] {
                    0x01 => Subs::Plain,
                    0xF9 => Subs::Control,
                    0xFE => Subs::Comment,
                    0xFF => Subs::App,
                    _ => Subs::Unknown,
                };
                self.go(Unit::Len, 1);
            }
            Unit::Image => {
                let flags = x[at + 8];
                let w = u16_at(x, at + 4);
                let h = u16_at(x, at + 6);
                self.size = w as usize * h as usize;
                self.desc = Some(ImageDesc::default()
                    .with_left(u16_at(x, at))
                    .with_top(u16_at(x, at + 2))
                    .with_width(w)
                    .with_height(h)
                    .with_flags(flags));
                self.started = true;
                if flags & 0x80 != 0 {
                    self.restart(Unit::Local, 3 * (2usize << (flags & 7)));
                } else {
                    self.restart(Unit::MinCode, 1);
                }
            }
            Unit::Local => {
                self.local = Some(LocalColorTable::with_colors(&x[at..self.pos]));
                self.restart(Unit::MinCode, 1);
            }
            Unit::MinCode => {
                self.subs = Subs::Image;
                self.restart(Unit::Len, 1);
            }
            Unit::Len => match x[at] {
                0 => self.subs_end(),
                n => self.go(Unit::Data, n as usize),
            },
            Unit::Data => {
                match self.subs {
                    Subs::Comment => self.com.add_comment(&x[at..self.pos]),
                    Subs::App => self.app.add_app_data(&x[at..self.pos]),
                    Subs::Control => {
                        if self.pos - at == 4 {
                            self.ctl.set_flags(x[at]);
                            self.ctl.set_delay_time_cs(u16_at(x, at + 1));
                            self.ctl.set_transparent_color_idx(x[at + 3]);
                        } else {
                            return self.restart(Unit::Stop, 0);
                        }
                    }
                    _ => (),
                }
                match self.subs {
                    Subs::Comment | Subs::App => self.go(Unit::Len, 1),
                    _ => self.restart(Unit::Len, 1),
                }
            }
            Unit::Stop => self.over = true,
        }
    }

    /// End of sub-blocks
    fn subs_end(&mut self) {
        match self.subs {
            Subs::Plain => self.gce = None,
            Subs::Control => {
                let c = self.ctl;
                self.ctl = GraphicControl::default();
                if self.gce.is_some() {
                    self.due = Due::Sequence;
                    return self.restart(Unit::Stop, 0);
                }
                self.gce = Some(c);
                self.started = true;
            }
            Subs::Comment => {
                let c = std::mem::take(&mut self.com);
                if !self.started && let Some(p) = &mut self.pre {
                    p.comments.push(c);
                }
            }
            Subs::App => {
                let a = std::mem::take(&mut self.app);
                if !self.started && a.loop_count().is_some() && let Some(p) = &mut self.pre {
                    p.loop_count_ext = Some(a);
                }
            }
            Subs::Image => {
                self.data = decoded();
                self.due = if self.data.len() < self.size {
                    Due::Incomplete
                } else {
                    Due::Frame
                };
            }
            _ => (),
        }
        self.next_block();
    }

    /// A frame was returned
    pub fn frame(&mut self, f: &Frame) {
        check("D13 frame is due", self.due == Due::Frame);
        check("D13 frame not skipped", !self.over);
        check("D13 graphic control", f.graphic_control_ext == self.gce);
        check("D13 image descriptor", Some(f.image_desc) == self.desc);
        check("D13 local color table", f.local_color_table == self.local);
        check("D13 image data", f.image_data.data()[..] == self.data[..self.size]);
        reach("D13 frame");
        self.gce = None;
        self.desc = None;
        self.local = None;
        self.size = 0;
        self.data = Vec::new();
        self.due = Due::Nothing;
    }

    /// An error was returned
    pub fn error(&mut self, e: &gift::Error) {
        match e {
            gift::Error::InvalidBlockSequence => {
                check("D13 sequence error is due", self.due == Due::Sequence);
                reach("D13 sequence error");
            }
            gift::Error::IncompleteImageData => {
                check("D13 frame is incomplete", self.due == Due::Incomplete);
                reach("D13 incomplete frame");
            }
            _ => check("D13 nothing is due", self.due == Due::Nothing),
        }
        check("D13 nothing read before the error", !self.over);
    }
}

/// Reader without short reads, which may end at any call
pub struct FSrc {
    pub mon: *mut FMon,
}

impl Read for FSrc {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let m = unsafe { &mut *self.mon };
        if buf.is_empty() || any_bool() {
            return Ok(0);
        }
        let n = buf.len();
        assume(n <= m.input.len() && m.pos <= m.input.len() - n);
        buf.copy_from_slice(&m.input[m.pos..m.pos + n]);
        m.feed(n);
        Ok(n)
    }
}
