//! Model of the frame encoder, which compares what it is given with the steps
//! and settings of a step encoder
use crate::ai::*;
use crate::io::Silent;
use crate::roots::encst::code;
use gift::Error;
use gift::block::*;
use gift::encode::FrameEnc;

pub struct TMon {
    /// Lengths of tables are compared
    pub sized: bool,
    /// Colors are compared
    pub exact: bool,
    /// Loop count which was set
    pub loops: Option<u16>,
    /// Table which was set
    pub set: Option<(usize, Vec<u8>)>,
    /// Size and table of the file, once the preamble is written
    pub width: u32,
    pub height: u32,
    pub global: Option<Vec<u8>>,
    /// Step to encode
    pub busy: bool,
    pub w: u32,
    pub h: u32,
    pub colors: usize,
    pub table: Vec<u8>,
    pub data: Vec<u8>,
    /// Code of the disposal method
    pub disposal: u8,
    pub transparent: Option<u8>,
    pub delay: u16,
    /// Frame of the step was written
    pub wrote: bool,
    pub pre: bool,
    pub end: bool,
    pub err: Option<u32>,
}

impl TMon {
    pub fn new() -> Self {
        TMon {
            sized: true,
            exact: true,
            loops: None,
            set: None,
            width: 0,
            height: 0,
            global: None,
            busy: false,
            w: 0,
            h: 0,
            colors: 0,
            table: vec![],
            data: vec![],
            disposal: 0,
            transparent: None,
            delay: 0,
            wrote: false,
            pre: false,
            end: false,
            err: None,
        }
    }

    fn result(&mut self) -> Result<(), Error> {
        if any_bool() {
            let t = any_u32();
            self.err = Some(t);
            Err(Error::Io(io_error(t)))
        } else {
            Ok(())
        }
    }

    fn preamble(&mut self, p: &Preamble) -> Result<(), Error> {
        check("E05 one preamble", self.busy && !self.pre && !self.end);
        check("E05 no write after an error", self.err.is_none());
        let d = &p.logical_screen_desc;
        check("E05 screen size is raster size", d.screen_width() as u32 == self.w && d.screen_height() as u32 == self.h);
        let t = match &p.global_color_table {
            Some(t) => t.colors().to_vec(),
            None => {
                check("E05 global table is written", false);
                return Ok(());
            }
        };
        let (n, c) = match &self.set {
            Some((n, c)) => (*n, c),
            None => (self.colors, &self.table),
        };
        if self.exact {
            check("E05 colors of global table", &t == c);
        }
        let f = d.color_table_config();
        check("E05 global table is announced", f.existence() == ColorTableExistence::Present);
        if self.sized {
            check("E05 length of global table", f.size_bytes() == t.len());
            check("E05 smallest global table", small(t.len(), n));
        }
        match (self.loops, &p.loop_count_ext) {
            (Some(n), Some(a)) => {
                check("E05 loop count", a.loop_count() == Some(n));
                reach("E05 loop count");
            }
            (None, None) => (),
            _ => check("E05 loop count is written as set", false),
        }
        check("E05 no comments", p.comments.is_empty());
        self.width = self.w;
        self.height = self.h;
        self.global = Some(t);
        self.pre = true;
        self.result()
    }

    fn frame(&mut self, f: &Frame) -> Result<(), Error> {
        check("E05 frame follows the preamble", self.busy && self.pre && !self.end);
        check("E05 no write after an error", self.err.is_none());
        check("E05 one frame for each step", !self.wrote);
        self.wrote = true;
        check("E05 size of step", self.w == self.width && self.h == self.height);
        let d = &f.image_desc;
        check("E05 frame at the origin", d.left() == 0 && d.top() == 0);
        check("E05 frame size", d.width() as u32 == self.w && d.height() as u32 == self.h);
        check("E05 not interlaced", !d.interlaced());
        check("E05 indices of frame", f.image_data.data() == &self.data[..]);
        let c = d.color_table_config();
        match &f.local_color_table {
            Some(t) => {
                if self.exact {
                    check("E05 local table only if it differs", self.global.as_ref() != Some(&self.table));
                    check("E05 colors of local table", t.colors() == &self.table[..]);
                }
                check("E05 local table is announced", c.existence() == ColorTableExistence::Present);
                check("E05 length of local table", c.size_bytes() == t.colors().len());
                check("E05 smallest local table", small(t.colors().len(), self.colors));
                reach("E05 local table");
            }
            None => {
                if self.exact {
                    check("E05 local table if it differs", self.global.as_ref() == Some(&self.table));
                }
                check("E05 local table is not announced", c.existence() == ColorTableExistence::Absent);
                reach("E05 global table");
            }
        }
        let (m, t, y) = (self.disposal, self.transparent, self.delay);
        match f.graphic_control_ext {
            Some(g) => {
                check("A04 disposal method written", code(g.disposal_method()) == m);
                check("A04 transparent color written", g.transparent_color() == t);
                check("A04 delay written", g.delay_time_cs() == y);
                check("A04 no user input", !g.user_input());
                check("A04 control only if not default", m > 0 || t.is_some() || y > 0);
                reach("A04 control");
            }
            None => {
                check("A04 control if not default", m == 0 && t.is_none() && y == 0);
                reach("A04 no control");
            }
        }
        self.result()
    }

    fn trailer(&mut self) -> Result<(), Error> {
        if !self.pre || self.end {
            return Err(Error::InvalidBlockSequence);
        }
        check("E05 trailer outside of a step", !self.busy);
        self.end = true;
        self.result()
    }
}

/// Table of a length is the smallest for a number of colors
fn small(len: usize, n: usize) -> bool {
    len == 6 && n <= 2
        || len == 12 && n > 2 && n <= 4
        || len == 24 && n > 4 && n <= 8
        || len == 48 && n > 8 && n <= 16
        || len == 96 && n > 16 && n <= 32
        || len == 192 && n > 32 && n <= 64
        || len == 384 && n > 64 && n <= 128
        || len == 768 && n > 128
}

/// Model of the preamble function of the frame encoder
pub fn m_encode_preamble(_e: &mut FrameEnc<Silent>, p: &Preamble) -> Result<(), Error> {
    unsafe { (*world::<TMon>()).preamble(p) }
}

/// Model of the frame function of the frame encoder
pub fn m_encode_frame(_e: &mut FrameEnc<Silent>, f: &Frame) -> Result<(), Error> {
    unsafe { (*world::<TMon>()).frame(f) }
}

/// Model of the trailer function of the frame encoder
pub fn m_encode_trailer(_e: &mut FrameEnc<Silent>) -> Result<(), Error> {
    unsafe { (*world::<TMon>()).trailer() }
}
