//! Readers and writers with every behavior std allows
use crate::ai::*;
use std::io::{self, Write};

/// Writer which may fail, be interrupted or write short at any call
pub struct Sink {
    /// Bytes accepted
    pub out: Vec<u8>,
    /// Tag of error reported
    pub err: Option<u32>,
}

impl Sink {
    pub fn new() -> Self {
        Sink { out: Vec::new(), err: None }
    }

    fn fail(&mut self) -> io::Error {
        let t = any_u32();
        self.err = Some(t);
        io_error(t)
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        check("E03 no write after a failed write", self.err.is_none());
        if any_bool() {
            return Err(io_interrupted());
        }
        if any_bool() {
            return Err(self.fail());
        }
        let n = any_usize();
        assume(n <= buf.len());
        assume(n > 0 || buf.is_empty());
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    /// Contract of Write::write_all: all bytes are written, or an error
    fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
        check("E03 no write after a failed write", self.err.is_none());
        if any_bool() {
            return Err(self.fail());
        }
        self.out.extend_from_slice(buf);
        Ok(())
    }

    fn flush(&mut self) -> io::Result<()> {
        if any_bool() {
            return Err(self.fail());
        }
        Ok(())
    }
}

/// Writer which compares what it is given with an extension and may fail at
/// any call
pub struct ExtSink<'a> {
    /// Introducer and label
    pub lead: [u8; 2],
    /// Sub-blocks due
    pub entries: &'a Vec<Vec<u8>>,
    pub part: Part,
    /// Sub-block due next
    pub k: usize,
    /// Bytes of the part written before
    pub pos: usize,
    /// Tag of error reported
    pub err: Option<u32>,
}

/// Part of an extension due
#[derive(Clone, Copy, PartialEq)]
pub enum Part {
    Lead,
    Len,
    Data,
    End,
}

impl ExtSink<'_> {
    pub fn done(&self) -> bool {
        self.part == Part::End
    }

    /// Compare bytes with the part due, as far as it goes
    fn part(&mut self, buf: &[u8]) -> usize {
        match self.part {
            Part::Lead => {
                if self.pos == 0 && buf.len() == 2 {
                    check("E02 introducer and label", *buf == self.lead);
                    self.part = Part::Len;
                    return 2;
                }
                check("E02 introducer and label", buf[0] == self.lead[self.pos]);
                self.pos += 1;
                if self.pos == 2 {
                    self.part = Part::Len;
                    self.pos = 0;
                }
                1
            }
            Part::Len => {
                if self.k == self.entries.len() {
                    check("E02 final zero byte", buf[0] == 0);
                    reach("E02 final zero byte");
                    self.part = Part::End;
                } else {
                    check("E02 sub-block length", buf[0] as usize == self.entries[self.k].len());
                    reach("E02 sub-block length");
                    self.part = Part::Data;
                }
                1
            }
            Part::Data => {
                let e = &self.entries[self.k];
                if self.pos == 0 && buf.len() == e.len() {
                    check("E02 sub-block data", *buf == e[..]);
                    reach("E02 sub-block data");
                    self.k += 1;
                    self.part = Part::Len;
                    return e.len();
                }
                let rest = e.len() - self.pos;
                let n = if buf.len() < rest { buf.len() } else { rest };
                check("E02 sub-block data", buf[..n] == e[self.pos..self.pos + n]);
                self.pos += n;
                if n == rest {
                    self.pos = 0;
                    self.k += 1;
                    self.part = Part::Len;
                }
                n
            }
            Part::End => {
                check("E02 nothing after the final zero byte", false);
                buf.len()
            }
        }
    }
}

impl Write for ExtSink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        check("E02 not written with partial writes", false);
        Ok(buf.len())
    }

    fn write_all(&mut self, mut buf: &[u8]) -> io::Result<()> {
        check("E03 no write after a failed write", self.err.is_none());
        if any_bool() {
            let t = any_u32();
            self.err = Some(t);
            return Err(io_error(t));
        }
        while !buf.is_empty() {
            let n = self.part(buf);
            buf = &buf[n..];
        }
        Ok(())
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Writer which compares what it is given with framed image data
pub struct DataSink {
    /// Code size written
    pub code: u8,
    pub part: DataPart,
    /// Compressed bytes written
    pub n: usize,
    /// Bytes of the sub-block due
    pub due: usize,
}

#[derive(Clone, Copy, PartialEq)]
pub enum DataPart {
    Code,
    Len,
    Data,
    End,
}

impl DataSink {
    fn part(&mut self, buf: &[u8]) -> usize {
        match self.part {
            DataPart::Code => {
                self.code = buf[0];
                check("E06 code size between 2 and 8", self.code >= 2 && self.code <= 8);
                self.part = DataPart::Len;
                1
            }
            DataPart::Len => {
                let rest = compressed().len() - self.n;
                self.due = if rest < 255 { rest } else { 255 };
                check("E06 sub-block length", buf[0] as usize == self.due);
                reach("E06 sub-block length");
                self.part = if self.due == 0 { DataPart::End } else { DataPart::Data };
                1
            }
            DataPart::Data => {
                let n = if buf.len() < self.due { buf.len() } else { self.due };
                check("E06 sub-block data", buf[..n] == compressed()[self.n..self.n + n]);
                reach("E06 sub-block data");
                self.n += n;
                self.due -= n;
                if self.due == 0 {
                    self.part = DataPart::Len;
                }
                n
            }
            DataPart::End => {
                check("E06 nothing after the final zero byte", false);
                buf.len()
            }
        }
    }
}

impl Write for DataSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        check("E06 not written with partial writes", false);
        Ok(buf.len())
    }

    fn write_all(&mut self, mut buf: &[u8]) -> io::Result<()> {
        while !buf.is_empty() {
            let n = self.part(buf);
            buf = &buf[n..];
        }
        Ok(())
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Writer which is never reached, because the frame encoder is a model
pub struct Silent;

impl Write for Silent {
    fn write(&mut self, _buf: &[u8]) -> io::Result<usize> {
        check("E05 writes go through the frame encoder", false);
        Ok(0)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
