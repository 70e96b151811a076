//! What steps must be, given the frames of a file
//!
//! Frames and rasters are replaced by models: the frame iterator hands out any
//! frames (what it returns is decided by the frame properties), and a raster is
//! represented by its size and the color of one pixel, any of the screen.
use crate::ai::*;
use gift::Error;
use gift::block::*;
use gift::decode::Frames;
use pix::rgb::SRgba8;
use pix::{Raster, Region};
use std::io::Empty;

/// Row handed out, relative to the one of the pixel
#[derive(Clone, Copy, PartialEq)]
pub enum Phase {
    Idle,
    Before,
    At,
    After,
}

/// What must become of a frame
#[derive(Clone, Copy, PartialEq)]
pub enum Fate {
    Outside,
    NoTable,
    /// Pixel is outside the frame
    Beside,
    /// Index of the pixel is transparent
    Transparent,
    Color,
    BadIndex,
}

/// What the frame iterator returned last
#[derive(Clone, Copy, PartialEq)]
pub enum Last {
    Nothing,
    Frame,
    Error,
    End,
}

/// Tables which can be present
#[derive(Clone, Copy, PartialEq)]
pub enum Tables {
    Global,
    Local,
    Both,
    Neither,
    /// Global table with 256 colors
    Full,
}

/// Frames handed out
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// No frames
    Start,
    /// From the start, a frame with one transparent pixel
    Clear,
    /// A frame too far to the right
    Wide,
    /// A frame too far to the bottom
    High,
    /// A frame without width
    Thin,
    /// A frame without height
    Flat,
    /// A frame with one transparent pixel
    Probe,
    /// One frame on the screen, right of the pixel
    Left,
    /// One frame on the screen, left of the pixel
    Right,
    /// One frame on the screen, below the pixel
    Above,
    /// One frame on the screen, above the pixel
    Below,
    /// One frame on the screen, without graphic control
    Plain,
    /// One frame on the screen, kept
    Keep,
    /// One frame on the screen, disposed to background
    Background,
    /// One frame on the screen, disposed to previous
    Previous,
    /// A list of frames covering a screen of one pixel
    Listed,
}

impl Kind {
    /// Steps from the start of a file
    pub fn is_start(self) -> bool {
        self == Kind::Start || self == Kind::Clear || self == Kind::Listed
    }

    /// Frame is not on the screen
    pub fn is_off(self) -> bool {
        self == Kind::Wide || self == Kind::High || self == Kind::Thin || self == Kind::Flat
    }
}

pub struct SMon {
    pub kind: Kind,
    /// Pixel when a raster is made
    pub clear: SRgba8,
    pub tables: Tables,
    pub last: Last,
    pub tag: u32,
    /// Limit of screen pixels
    pub limit: usize,
    /// Screen
    pub width: u16,
    pub height: u16,
    pub global: Option<GlobalColorTable>,
    /// Position of the pixel
    pub x: u16,
    pub y: u16,
    /// Frame
    pub frame: Option<Frame>,
    pub fate: Fate,
    pub color: [u8; 3],
    /// Pixel lies in the frame
    pub within: bool,
    /// Rows being handed out
    pub phase: Phase,
    pub raster: *mut Raster<SRgba8>,
    pub reg: Region,
    pub row_y: i32,
    /// Rows before the one of the pixel
    pub wait: i32,
    pub pos: usize,
    pub row: Vec<SRgba8>,
    /// Delays of the frames listed
    pub delays: Vec<u16>,
    pub at: usize,
    /// There is an error after the frames listed
    pub fails: bool,
    pub ext: Option<Application>,
}

/// Any color table
fn any_colors() -> Vec<u8> {
    let c = any_bytes();
    let n = any_usize();
    assume(n >= 1 && n <= 256 && c.len() == 3 * n);
    c
}

impl SMon {
    pub fn new(max: Option<usize>, tables: Tables, kind: Kind) -> Self {
        let (x, y): (u16, u16) = any_val();
        SMon {
            kind,
            clear: listed(if kind.is_start() { SRgba8::default() } else { any_val() }),
            tables,
            last: Last::Nothing,
            tag: 0,
            limit: match max {
                Some(n) if n < i32::MAX as usize => n,
                _ => i32::MAX as usize,
            },
            width: 0,
            height: 0,
            global: None,
            x,
            y,
            frame: None,
            fate: Fate::Outside,
            color: [0; 3],
            within: false,
            phase: Phase::Idle,
            raster: std::ptr::null_mut(),
            reg: Region::default(),
            row_y: 0,
            wait: 0,
            pos: 0,
            row: Vec::new(),
            delays: Vec::new(),
            at: 0,
            fails: false,
            ext: None,
        }
    }

    /// Forget the frame
    pub fn reset(&mut self) {
        self.last = Last::Nothing;
        self.frame = None;
        self.fate = Fate::Outside;
        self.color = [0; 3];
        self.within = false;
        self.phase = Phase::Idle;
        self.raster = std::ptr::null_mut();
        self.reg = Region::default();
        self.row_y = 0;
        self.wait = 0;
        self.pos = 0;
        self.row = Vec::new();
    }

    /// The pixel of the row handed out last is stored
    pub fn flush(&mut self) {
        if self.phase == Phase::At {
            let k = self.x as usize - self.reg.left() as usize;
            unsafe { *raster_px(self.raster) = listed(self.row[k]) };
            self.phase = Phase::After;
            focus_done();
        }
    }

    pub fn is_in(&self, reg: Region) -> bool {
        let (x, y) = (self.x as i32, self.y as i32);
        reg.left() <= x && x < reg.right() && reg.top() <= y && y < reg.bottom()
    }

    pub fn rows(&mut self, raster: *mut Raster<SRgba8>, reg: Region) {
        self.flush();
        self.raster = raster;
        self.reg = reg;
        self.row_y = reg.top();
        self.pos = 0;
        self.phase = Phase::After;
        if self.is_in(reg) {
            self.phase = Phase::Before;
            self.wait = self.y as i32 - reg.top();
        }
    }

    /// Hand out one row
    pub fn next_row(&mut self) -> Option<&mut [SRgba8]> {
        self.flush();
        if self.row_y >= self.reg.bottom() {
            return None;
        }
        self.row_y += 1;
        let n = self.reg.width() as usize;
        let pos = self.pos;
        self.pos += n;
        if let Some(f) = &self.frame
            && f.width() as usize == n
            && f.height() as u32 == self.reg.height()
        {
            // the data of a frame has n * height bytes, and pos is n times
            // the number of rows up to this one
            assume(self.pos <= f.image_data.data().len());
        }
        if self.phase == Phase::Before && self.wait == 0 {
            self.phase = Phase::At;
            let k = self.x as usize - self.reg.left() as usize;
            let old = unsafe { *raster_px(self.raster) };
            let new = self.fated(old, pos + k);
            self.row = junk_row(n, k, old);
            if self.fate == Fate::BadIndex {
                focus_never(k, old);
            } else {
                focus_pixel(k, old, new);
            }
        } else {
            if self.phase == Phase::Before {
                self.wait -= 1;
            }
            self.row = junk_row(n, n, SRgba8::default());
        }
        Some(&mut self.row[..])
    }

    /// What must become of the pixel in a frame
    fn fated(&mut self, old: SRgba8, i: usize) -> SRgba8 {
        let f = self.frame.as_ref().unwrap();
        let idx = f.image_data.data()[i];
        let clrs = match (&f.local_color_table, &self.global) {
            (Some(t), _) => t.colors(),
            (None, Some(t)) => t.colors(),
            (None, None) => return old,
        };
        let c = 3 * idx as usize;
        if c + 3 > clrs.len() {
            self.fate = Fate::BadIndex;
            old
        } else if f.transparent_color() == Some(idx) {
            self.fate = Fate::Transparent;
            old
        } else {
            self.fate = Fate::Color;
            self.color = [clrs[c], clrs[c + 1], clrs[c + 2]];
            SRgba8::new(clrs[c], clrs[c + 1], clrs[c + 2], 255)
        }
    }

    fn next_frame(&mut self) -> Option<Result<Frame, Error>> {
        if self.last == Last::Error {
            return None;
        }
        if self.kind == Kind::Listed {
            return self.listed_frame();
        }
        if self.kind != Kind::Start {
            self.last = Last::Frame;
            return Some(Ok(self.any_frame()));
        }
        if any_bool() {
            self.last = Last::End;
            None
        } else {
            Some(Err(self.error()))
        }
    }

    fn error(&mut self) -> Error {
        self.last = Last::Error;
        self.tag = any_u32();
        Error::Io(io_error(self.tag))
    }

    fn listed_frame(&mut self) -> Option<Result<Frame, Error>> {
        let k = self.at;
        self.at += 1;
        if k < self.delays.len() {
            let mut g = GraphicControl::default();
            g.set_delay_time_cs(self.delays[k]);
            let desc = ImageDesc::default().with_width(1).with_height(1);
            let mut data = ImageData::new(1);
            data.data_mut().push(k as u8);
            self.last = Last::Frame;
            self.phase = Phase::Idle;
            self.frame = Some(Frame::new(Some(g), desc, None, data.clone()));
            Some(Ok(Frame::new(Some(g), desc, None, data)))
        } else if k == self.delays.len() && self.fails {
            Some(Err(self.error()))
        } else {
            self.last = Last::End;
            None
        }
    }

    fn any_frame(&mut self) -> Frame {
        let gce: Option<GraphicControl> = match self.kind {
            Kind::Plain => None,
            Kind::Probe | Kind::Clear => {
                let mut g = GraphicControl::default();
                g.set_transparent_color(Some(0));
                Some(g)
            }
            Kind::Keep | Kind::Background | Kind::Previous => Some(any_val()),
            _ => any_val(),
        };
        let mut desc: ImageDesc = any_val();
        let mut data: ImageData = any_val();
        match self.kind {
            Kind::Probe | Kind::Clear => {
                desc = ImageDesc::default().with_left(self.x).with_top(self.y).with_width(1).with_height(1);
                data = ImageData::new(1);
                data.data_mut().push(0);
            }
            Kind::Keep => {
                assume(gce.unwrap().disposal_method() != DisposalMethod::Previous);
                assume(gce.unwrap().disposal_method() != DisposalMethod::Background);
            }
            Kind::Background => assume(gce.unwrap().disposal_method() == DisposalMethod::Background),
            Kind::Previous => assume(gce.unwrap().disposal_method() == DisposalMethod::Previous),
            _ => (),
        }
        let tbl = if self.tables == Tables::Both || self.tables == Tables::Local { Some(LocalColorTable::with_colors(&any_colors())) } else { None };
        let (l, t) = (desc.left() as u32, desc.top() as u32);
        let (w, h) = (desc.width() as u32, desc.height() as u32);
        let (x, y) = (self.x as u32, self.y as u32);
        let inside = l + w <= self.width as u32 && t + h <= self.height as u32;
        self.within = match self.kind {
            Kind::Wide => {
                assume(w > 0 && h > 0 && l + w > self.width as u32);
                false
            }
            Kind::High => {
                assume(w > 0 && h > 0 && t + h > self.height as u32);
                false
            }
            Kind::Thin => {
                assume(w == 0);
                false
            }
            Kind::Flat => {
                assume(h == 0);
                false
            }
            Kind::Left => {
                assume(x < l);
                false
            }
            Kind::Right => {
                assume(x >= l + w);
                false
            }
            Kind::Above => {
                assume(y < t);
                false
            }
            Kind::Below => {
                assume(y >= t + h);
                false
            }
            _ => {
                assume(l <= x && x < l + w && t <= y && y < t + h);
                true
            }
        };
        if !self.kind.is_off() {
            assume(w > 0 && h > 0);
            assume(inside);
        }
        self.fate = if self.kind.is_off() {
            Fate::Outside
        } else if tbl.is_none() && self.global.is_none() {
            Fate::NoTable
        } else {
            Fate::Beside
        };
        self.phase = Phase::Idle;
        self.frame = Some(Frame::new(gce, desc, tbl.clone(), data.clone()));
        Frame::new(gce, desc, tbl, data)
    }

    fn preamble(&mut self) -> Result<Option<Preamble>, Error> {
        if self.kind == Kind::Listed {
            self.width = 1;
            self.height = 1;
            return Ok(Some(Preamble {
                logical_screen_desc: LogicalScreenDesc::default().with_screen_width(1).with_screen_height(1),
                global_color_table: self.global.clone(),
                loop_count_ext: self.ext.clone(),
                ..Preamble::default()
            }));
        }
        match if self.kind == Kind::Start { any_u8() } else { 2 } {
            0 => {
                self.last = Last::End;
                Ok(None)
            }
            1 => Err(self.error()),
            _ => {
                let d: LogicalScreenDesc = any_val();
                self.width = d.screen_width();
                self.height = d.screen_height();
                self.global = if self.tables == Tables::Full {
                    let c = any_bytes();
                    assume(c.len() == 768);
                    Some(GlobalColorTable::with_colors(&c))
                } else if self.tables == Tables::Global || self.tables == Tables::Both { Some(GlobalColorTable::with_colors(&any_colors())) } else { None };
                Ok(Some(Preamble {
                    logical_screen_desc: d,
                    global_color_table: self.global.clone(),
                    ..Preamble::default()
                }))
            }
        }
    }
}

/// Model of the frame iterator
pub fn m_frames_next(_f: &mut Frames<Empty>) -> Option<Result<Frame, Error>> {
    unsafe { (*world::<SMon>()).next_frame() }
}

/// Model of the preamble function of the frame iterator
pub fn m_frames_preamble(_f: &mut Frames<Empty>) -> Result<Option<Preamble>, Error> {
    unsafe { (*world::<SMon>()).preamble() }
}
