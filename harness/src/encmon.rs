//! Writer which compares what it is given with the blocks due
use crate::ai::*;
use gift::block::*;
use std::io::{self, Write};

/// Part of the output due
#[derive(Clone, Copy, PartialEq)]
pub enum Due {
    /// Nothing may be written
    Idle,
    Header,
    Screen,
    Global,
    Loop,
    Comment,
    Control,
    Image,
    Local,
    Code,
    DataLen,
    Data,
    Trailer,
}

/// Part of an extension
#[derive(Clone, Copy, PartialEq)]
pub enum Ext {
    Lead,
    Len,
    Data,
}

pub struct EncMon {
    pub pre: Preamble,
    pub frame: Frame,
    pub due: Due,
    /// Bytes of the part written before
    pub pos: usize,
    /// Bytes of the sub-block still due
    pub left: usize,
    pub ext: Ext,
    /// Comment block and entry
    pub j: usize,
    pub k: usize,
    pub err: Option<u32>,
}

fn lo(x: u16) -> u8 {
    (x % 256) as u8
}

fn hi(x: u16) -> u8 {
    (x / 256) as u8
}

impl EncMon {
    pub fn new(pre: Preamble, frame: Frame) -> Self {
        EncMon { pre, frame, due: Due::Idle, pos: 0, left: 0, ext: Ext::Lead, j: 0, k: 0, err: None }
    }

    fn go(&mut self, d: Due) {
        self.due = d;
        self.pos = 0;
        self.ext = Ext::Lead;
        self.k = 0;
    }

    pub fn start_preamble(&mut self) {
        self.j = 0;
        self.go(Due::Header);
    }

    pub fn start_frame(&mut self) {
        if self.frame.graphic_control_ext.is_some() {
            self.go(Due::Control);
        } else {
            self.go(Due::Image);
        }
    }

    pub fn start_trailer(&mut self) {
        self.go(Due::Trailer);
    }

    /// A part is complete
    fn next(&mut self) {
        match self.due {
            Due::Header => self.go(Due::Screen),
            Due::Screen if self.pre.global_color_table.as_ref().is_some_and(|t| !t.colors().is_empty()) => self.go(Due::Global),
            Due::Screen | Due::Global if self.pre.loop_count_ext.is_some() => self.go(Due::Loop),
            Due::Screen | Due::Global | Due::Loop => self.next_comment(),
            Due::Comment => {
                self.j += 1;
                self.next_comment();
            }
            Due::Control => self.go(Due::Image),
            Due::Image if self.frame.local_color_table.as_ref().is_some_and(|t| !t.colors().is_empty()) => self.go(Due::Local),
            Due::Image | Due::Local => self.go(Due::Code),
            _ => self.go(Due::Idle),
        }
    }

    fn next_comment(&mut self) {
        if self.j < self.pre.comments.len() {
            self.go(Due::Comment);
        } else {
            self.go(Due::Idle);
        }
    }

    /// Compare with fixed bytes
    fn fixed(&mut self, buf: &[u8], want: &[u8]) -> usize {
        let rest = want.len() - self.pos;
        let n = if buf.len() < rest { buf.len() } else { rest };
        check("E04 bytes of the block due", buf[..n] == want[self.pos..self.pos + n]);
        self.pos += n;
        if n == rest {
            self.next();
        }
        n
    }

    fn ext(&mut self, buf: &[u8], label: u8) -> usize {
        let entries = match self.due {
            Due::Loop => self.pre.loop_count_ext.as_ref().unwrap().app_data(),
            _ => self.pre.comments[self.j].comments(),
        };
        match self.ext {
            Ext::Lead => {
                let want = [0x21, label];
                let n = if buf.len() == 2 && self.pos == 0 { 2 } else { 1 };
                check("E04 extension", buf[..n] == want[self.pos..self.pos + n]);
                self.pos += n;
                if self.pos == 2 {
                    self.ext = Ext::Len;
                }
                n
            }
            Ext::Len => {
                if self.k < entries.len() {
                    check("E04 sub-block length", buf[0] as usize == entries[self.k].len());
                    self.ext = Ext::Data;
                    self.pos = 0;
                } else {
                    check("E04 end of sub-blocks", buf[0] == 0);
                    self.next();
                }
                1
            }
            Ext::Data => {
                let e = &entries[self.k];
                if self.pos == 0 && buf.len() == e.len() {
                    check("E04 sub-block data", *buf == e[..]);
                    self.k += 1;
                    self.ext = Ext::Len;
                    return e.len();
                }
                let rest = e.len() - self.pos;
                let n = if buf.len() < rest { buf.len() } else { rest };
                check("E04 sub-block data", buf[..n] == e[self.pos..self.pos + n]);
                self.pos += n;
                if n == rest {
                    self.k += 1;
                    self.ext = Ext::Len;
                }
                n
            }
        }
    }

    fn part(&mut self, buf: &[u8]) -> usize {
        match self.due {
            Due::Idle => {
                check("E04 nothing more is written", false);
                buf.len()
            }
            Due::Header => {
                let v = self.pre.header.version();
                self.fixed(buf, &[b'G', b'I', b'F', v[0], v[1], v[2]])
            }
            Due::Screen => {
                let d = self.pre.logical_screen_desc;
                let (w, h) = (d.screen_width(), d.screen_height());
                let b = [lo(w), hi(w), lo(h), hi(h), d.flags(), d.background_color_idx(), d.pixel_aspect_ratio()];
                self.fixed(buf, &b)
            }
            Due::Global => {
                let t = self.pre.global_color_table.clone().unwrap();
                self.fixed(buf, t.colors())
            }
            Due::Loop => self.ext(buf, 0xFF),
            Due::Comment => self.ext(buf, 0xFE),
            Due::Control => {
                let g = self.frame.graphic_control_ext.unwrap();
                let d = g.delay_time_cs();
                let b = [0x21, 0xF9, 4, g.flags(), lo(d), hi(d), g.transparent_color_idx(), 0];
                self.fixed(buf, &b)
            }
            Due::Image => {
                let d = self.frame.image_desc;
                let (l, t, w, h) = (d.left(), d.top(), d.width(), d.height());
                let b = [0x2C, lo(l), hi(l), lo(t), hi(t), lo(w), hi(w), lo(h), hi(h), d.flags()];
                self.fixed(buf, &b)
            }
            Due::Local => {
                let t = self.frame.local_color_table.clone().unwrap();
                self.fixed(buf, t.colors())
            }
            Due::Code => {
                self.go(Due::DataLen);
                1
            }
            Due::DataLen => {
                self.left = buf[0] as usize;
                if self.left == 0 {
                    check("E04 image data of the frame", compressed_from()[..] == self.frame.image_data.data()[..]);
                    self.go(Due::Idle);
                } else {
                    self.go(Due::Data);
                }
                1
            }
            Due::Data => {
                let n = if buf.len() < self.left { buf.len() } else { self.left };
                self.left -= n;
                if self.left == 0 {
                    self.go(Due::DataLen);
                }
                n
            }
            Due::Trailer => self.fixed(buf, &[0x3B]),
        }
    }
}

/// Writer which may fail at any call
pub struct EncSink {
    pub mon: *mut EncMon,
}

impl Write for EncSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        check("E04 not written with partial writes", false);
        Ok(buf.len())
    }

    fn write_all(&mut self, mut buf: &[u8]) -> io::Result<()> {
        let m = unsafe { &mut *self.mon };
        check("E03 no write after a failed write", m.err.is_none());
        if any_bool() {
            let t = any_u32();
            m.err = Some(t);
            return Err(io_error(t));
        }
        while !buf.is_empty() {
            let n = m.part(buf);
            buf = &buf[n..];
        }
        Ok(())
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
