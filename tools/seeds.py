"""Planted bugs: edits of original lines of gift, and a demonstration each"""
SEEDS = {}


def seed(id, property, needs, breaks, edits, demo):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, demo=demo)


B = "gift/src/block.rs"
D = "gift/src/decode.rs"
E = "gift/src/encode.rs"
L = "gift/src/lzw.rs"
P = "gift/src/private.rs"
R = "gift/src/error.rs"

STEPS = r'''
use gift::{Decoder, Step};
use pix::el::Pixel;
use pix::rgb::{Rgb, SRgba8};
/// Screen of 2x1 pixels with frames of one pixel: left, top, index, graphic control (disposal, transparent color)
fn gif(frames: &[(u8, u8, u8, Option<(u8, Option<u8>)>)]) -> Vec<u8> {
    let mut g = b"GIF89a\x02\0\x01\0\x81\0\0".to_vec();
    g.extend([10, 20, 30, 40, 50, 60, 70, 80, 90, 100, 110, 120]);
    for (l, t, i, c) in frames {
        if let Some((d, tr)) = c {
            g.extend([0x21, 0xF9, 4, d << 2 | tr.is_some() as u8, 0, 0, tr.unwrap_or(0), 0]);
        }
        g.extend([0x2C, *l, 0, *t, 0, 1, 0, 1, 0, 0]);
        let w = 4 | (*i as u16) << 3 | 5 << 6;
        g.extend([2, 2, w as u8, (w >> 8) as u8, 0]);
    }
    g.push(0x3B);
    g
}
#[allow(unused)]
fn px(s: &Step, x: i32) -> [u8; 4] {
    let p: SRgba8 = s.raster().pixel(x, 0);
    [Rgb::red(p).into(), Rgb::green(p).into(), Rgb::blue(p).into(), p.alpha().into()]
}
'''

seed("A01-disposal-xor", "A01",
     "a graphic control whose disposal method is changed twice",
     "Setting the disposal method when one is already set combines the codes instead of replacing them.",
     [(B, "self.flags = (self.flags & !Self::DISPOSAL_METHOD) | (d << 2);",
          "self.flags = (self.flags | Self::DISPOSAL_METHOD) ^ (!(d << 2) & Self::DISPOSAL_METHOD & !self.flags);")],
     r'''
use gift::block::*;
fn main() {
    let mut g = GraphicControl::default();
    g.set_disposal_method(DisposalMethod::Previous);
    g.set_disposal_method(DisposalMethod::Keep);
    assert_eq!(g.disposal_method(), DisposalMethod::Keep);
}
''')

seed("A02-image-reserved", "A02",
     "an interlaced image descriptor which is given a color table configuration",
     "Setting a local color table configuration clears the interlace flag.",
     [(B, "let mut flags = self.flags & (Self::INTERLACED | Self::RESERVED);",
          "let mut flags = self.flags & Self::RESERVED;")],
     r'''
use gift::block::*;
fn main() {
    let c = ColorTableConfig::new(ColorTableExistence::Present, ColorTableOrdering::Sorted, 16);
    let d = ImageDesc::default().with_interlaced(true).with_color_table_config(c);
    assert!(d.interlaced());
}
''')

seed("A02-sort-bit", "A02",
     "an image descriptor with a sorted color table",
     "The sort flag of local color tables is read and written in a reserved bit.",
     [(B, "const COLOR_TABLE_ORDERING: u8 = 0b0010_0000;", "const COLOR_TABLE_ORDERING: u8 = 0b0001_0000;")],
     r'''
use gift::block::*;
fn main() {
    let d = ImageDesc::default().with_flags(0b1010_0000);
    assert_eq!(d.color_table_config().ordering(), ColorTableOrdering::Sorted);
}
''')

seed("A03-sub-block-id", "A03",
     "an application extension with a looping identifier but another sub-block ID",
     "Sub-block IDs other than one (such as the buffering size, two) are taken for loop counts.",
     [(B, "d[1][0] == 1; // sub-block ID", "d[1][0] != 0; // sub-block ID")],
     r'''
use gift::block::*;
fn main() {
    let mut a = Application::default();
    a.add_app_data(b"NETSCAPE2.0");
    a.add_app_data(&[2, 5, 0]);
    assert_eq!(a.loop_count(), None);
}
''')

seed("E01-image-top", "E01",
     "an image placed lower than row 255",
     "The high byte of the top position is computed from the left position.",
     [(E, "            (top >> 8) as u8,\n", "            (left >> 8) as u8,\n")],
     r'''
use gift::block::*;
use gift::Encoder;
fn main() {
    let mut out = vec![];
    let d = ImageDesc::default().with_left(1).with_top(0x0203).with_width(4).with_height(5);
    Encoder::new(&mut out).into_block_enc().encode(d).unwrap();
    assert_eq!(&out[..], &[0x2C, 1, 0, 3, 2, 4, 0, 5, 0, 0]);
}
''')

seed("E03-drop-error", "E03",
     "a writer which fails while the header is written",
     "An error of the first write of a header is ignored and the rest is written.",
     [(E, '        w.write_all(b"GIF")?;\n', '        w.write_all(b"GIF").ok();\n')],
     r'''
use gift::block::*;
use gift::Encoder;
use std::io::{self, Write};
struct W(usize);
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += 1;
        if self.0 == 1 {
            return Err(io::Error::new(io::ErrorKind::Other, "disk full"));
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn main() {
    let mut w = W(0);
    assert!(Encoder::new(&mut w).into_block_enc().encode(Header::default()).is_err());
}
''')

# A reader and an input for decoding demonstrations
READER = r'''
use gift::block::*;
use gift::{Decoder, Error};
use std::io::{self, Read};
const HEAD: &[u8] = b"GIF89a\x02\x00\x02\x00\x00\x00\x00";
fn gif(body: &[u8]) -> Vec<u8> {
    let mut v = HEAD.to_vec();
    v.extend(body);
    v
}
fn items(v: &[u8]) -> Vec<Result<Block, Error>> {
    Decoder::new(v).into_blocks().collect()
}
'''

seed("D03-resume-after-code", "D03",
     "a caller which keeps polling the block iterator after malformed (not truncated) input",
     "Only the trailer and truncation stop the iteration; after other errors parsing goes on inside the broken data.",
     [(D, "                Ok(Block::Trailer(_)) | Err(_) => self.done = true,\n",
          "                Ok(Block::Trailer(_))\n                | Err(Error::UnexpectedEndOfFile)\n                | Err(Error::Io(_))\n                | Err(Error::MalformedHeader)\n                | Err(Error::MalformedGraphicControlExtension)\n                | Err(Error::UnsupportedVersion(_)) => self.done = true,\n")],
     READER + r'''
fn main() {
    let v = gif(b"\x55\x21\xFE\x00\x3B");
    let mut it = Decoder::new(&v[..]).into_blocks();
    assert!(it.next().unwrap().is_ok());
    assert!(it.next().unwrap().is_ok());
    assert!(it.next().unwrap().is_err());
    assert!(it.next().is_none());
}
''')

seed("D04-limit-16bit", "D04",
     "an image with more than 65535 pixels in total",
     "The image size compared with the limit is computed with a dimension cut to eight bits.",
     [(B, "self.width as usize * self.height as usize", "self.width as usize * (self.height & 0x1FF) as usize")],
     READER + r'''
fn main() {
    let v = gif(b"\x2C\x00\x00\x00\x00\x02\x00\x00\x04\x00\x02\x00\x3B");
    let r: Vec<_> = Decoder::new(&v[..]).max_image_sz(Some(1000)).into_blocks().collect();
    assert!(matches!(r[2], Err(Error::TooLargeImage)));
}
''')

seed("D05-version-range", "D05",
     "a header with version 88a",
     "Version 88a is accepted like 87a and 89a.",
     [(D, '                b"87a" | b"89a" => Ok(', "                [b'8', b'7'..=b'9', b'a'] => Ok(")],
     READER + r'''
fn main() {
    assert!(matches!(items(b"GIF88a\x01")[0], Err(Error::UnsupportedVersion([b'8', b'8', b'a']))));
    assert!(items(b"GIF87a\x01")[0].is_ok());
}
''')

seed("D06-screen-height", "D06",
     "a screen of more than 255 rows",
     "The high byte of the screen height is taken from the width.",
     [(D, "        let height = (u16::from(buf[3]) << 8) | u16::from(buf[2]);\n        let flags = buf[4];",
          "        let height = (u16::from(buf[1]) << 8) | u16::from(buf[2]);\n        let flags = buf[4];")],
     READER + r'''
fn main() {
    let r = items(b"GIF89a\x02\x00\x02\x01\x00\x00\x00\x3B");
    match &r[1] {
        Ok(Block::LogicalScreenDesc(d)) => assert_eq!(d.screen_height(), 258),
        _ => panic!(),
    }
}
''')

seed("D06-control-delay", "D06",
     "a delay of more than 327 seconds",
     "The top bit of the delay time is lost.",
     [(D, "            let delay = (u16::from(bytes[2]) << 8) | u16::from(bytes[1]);",
          "            let delay = (u16::from(bytes[2] & 0x7F) << 8) | u16::from(bytes[1]);")],
     READER + r'''
fn main() {
    match &items(&gif(b"\x21\xF9\x04\x00\x01\x80\x00\x00\x3B"))[2] {
        Ok(Block::GraphicControl(d)) => assert_eq!(d.delay_time_cs(), 0x8001),
        _ => panic!(),
    }
}
''')

seed("D07-local-sized-by-screen", "D07",
     "a local color table of 256 entries",
     "Local color tables of 256 entries are read as if they had 128.",
     [(D, "            Block::ImageDesc(b) => {\n                let sz = b.color_table_config().size_bytes();",
          "            Block::ImageDesc(b) => {\n                let sz = b.color_table_config().size_bytes().min(384);")],
     READER + r'''
fn main() {
    let mut b = b"\x2C\x00\x00\x00\x00\x02\x00\x02\x00\x87".to_vec();
    b.extend([7; 768]);
    match &items(&gif(&b))[3] {
        Ok(Block::LocalColorTable(t)) => assert_eq!(t.colors().len(), 768),
        _ => panic!(),
    }
}
''')

seed("D08-plain-text", "D08",
     "a file with an extension labelled 0x00",
     "Extensions with label zero are returned as plain text.",
     [(B, "            0x01 => PlainText_,", "            0x00 | 0x01 => PlainText_,")],
     READER + r'''
fn main() {
    assert!(matches!(items(&gif(b"\x21\x00\x00\x3B"))[2], Ok(Block::Unknown(_))));
}
''')

seed("D09-control-longer", "D09",
     "a graphic control sub-block longer than four bytes",
     "Graphic control sub-blocks longer than four bytes are accepted.",
     [(D, "        if bytes.len() == 4 {\n            self.set_flags", "        if bytes.len() >= 4 {\n            self.set_flags")],
     READER + r'''
fn main() {
    let r = items(&gif(b"\x21\xF9\x05\x00\x01\x00\x00\x00\x00\x3B"));
    assert!(matches!(r[2], Err(Error::MalformedGraphicControlExtension)));
}
''')

seed("D09-comment-empty", "D09",
     "a comment sub-block which repeats the previous one",
     "A comment sub-block equal to the one before it is dropped.",
     [(D, "        self.add_comment(bytes);", "        if self.comments().last().map(|c| &c[..]) != Some(bytes) {\n            self.add_comment(bytes);\n        }")],
     READER + r'''
fn main() {
    match &items(&gif(b"\x21\xFE\x01a\x01a\x00\x3B"))[2] {
        Ok(Block::Comment(c)) => assert_eq!(c.comments().len(), 2),
        _ => panic!(),
    }
}
''')

seed("D10-interrupt-restart", "D10",
     "a read interrupted in the middle of a block which was partly read",
     "After an interruption the buffer is filled from its start again, losing the bytes read before.",
     [(D, "                Err(ref e) if e.kind() == ErrorKind::Interrupted => {}",
          "                Err(ref e) if e.kind() == ErrorKind::Interrupted => len = 0,")],
     READER + r'''
struct R(Vec<u8>, usize);
impl Read for R {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.1 += 1;
        if self.1 == 2 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.0.len()).min(2);
        b[..n].copy_from_slice(&self.0[..n]);
        self.0.drain(..n);
        Ok(n)
    }
}
fn main() {
    assert!(Decoder::new(R(gif(b"\x3B"), 0)).into_blocks().all(|b| b.is_ok()));
}
''')

seed("D11-short-read", "D11",
     "a reader which returns fewer bytes than asked for while a sub-block is read",
     "One byte more than the sub-block is requested from the reader when it fits in the buffer.",
     [(D, "            self.fill_buffer(&mut buf[1..blk_sz])?;",
          "            self.fill_buffer(&mut buf[1..blk_sz.max(2)])?;\n            if len == 255 && matches!(block, Block::Comment(_)) {\n                self.fill_buffer(&mut [0; 1])?;\n                self.parse_sub_block(block, &buf[1..blk_sz])?;\n                return Ok(false);\n            }")],
     READER + r'''
fn main() {
    let mut b = b"\x21\xFE\xFF".to_vec();
    b.extend([7; 255]);
    b.extend(b"\x01a\x00\x3B");
    let r = items(&gif(&b));
    assert!(matches!(r[3], Ok(Block::Trailer(_))));
}
''')

seed("D12-short-row", "D12",
     "image data which ends early, in the last row",
     "Image data is accepted when at least 15/16 of it is there.",
     [(D, "        if self.data().len() == image_sz {\n            Ok(())", "        if self.data().len() + image_sz / 16 >= image_sz {\n            Ok(())")],
     READER + r'''
fn main() {
    let mut b = b"\x2C\x00\x00\x00\x00\x10\x00\x01\x00\x00\x02".to_vec();
    // 15 literal codes with clears between them
    let mut bits: Vec<u8> = vec![];
    for i in 0..15 {
        if i % 2 == 0 {
            bits.extend([0, 0, 1]);
        }
        bits.extend([1, 0, 0]);
    }
    bits.extend([1, 0, 1]);
    let bytes: Vec<u8> = bits.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, x)| a | (x << i))).collect();
    b.push(bytes.len() as u8);
    b.extend(bytes);
    b.extend(b"\x00\x3B");
    let r = items(&gif(&b));
    assert!(matches!(r[3], Err(Error::IncompleteImageData)));
}
''')

seed("D13-control-kept", "D13",
     "an image without a graphic control extension after one with it",
     "The graphic control extension of a frame is kept for the following frames.",
     [(D, "let graphic_control_ext = self.graphic_control_ext.take();", "let graphic_control_ext = self.graphic_control_ext;"),
      (D, "                if self.has_frame() {\n                    return Err(Error::InvalidBlockSequence);\n                }\n                self.graphic_control_ext", "                if self.image_desc.is_some() {\n                    return Err(Error::InvalidBlockSequence);\n                }\n                self.graphic_control_ext")],
     READER + r'''
fn main() {
    let img = b"\x2C\x00\x00\x00\x00\x01\x00\x01\x00\x00\x02\x02\x44\x01\x00";
    let mut b = b"\x21\xF9\x04\x04\x07\x00\x00\x00".to_vec();
    b.extend(img);
    b.extend(img);
    b.push(0x3B);
    let v = gif(&b);
    let f: Vec<_> = Decoder::new(&v[..]).into_frames().map(|f| f.unwrap()).collect();
    assert_eq!(f.len(), 2);
    assert!(f[0].graphic_control_ext.is_some());
    assert!(f[1].graphic_control_ext.is_none());
}
''')

seed("D14-first-comment", "D14",
     "more than one comment before the first frame",
     "Only the first comment is put into the preamble.",
     [(D, "                if let Some(f) = &mut self.preamble {\n                    f.comments.push(b);", "                if let Some(f) = &mut self.preamble\n                    && f.comments.is_empty()\n                {\n                    f.comments.push(b);")],
     READER + r'''
fn main() {
    let v = gif(b"\x21\xFE\x01a\x00\x21\xFE\x01b\x00\x2C\x00\x00\x00\x00\x01\x00\x01\x00\x00\x02\x02\x44\x01\x00\x3B");
    let mut it = Decoder::new(&v[..]).into_frames();
    let p = it.preamble().unwrap().unwrap();
    assert_eq!(p.comments.len(), 2);
}
''')

seed("D14-first-loop", "D14",
     "two looping extensions before the first frame",
     "The first looping extension is used instead of the last one.",
     [(D, "                    f.loop_count_ext = Some(b);", "                    f.loop_count_ext.get_or_insert(b);")],
     READER + r'''
fn main() {
    let v = gif(b"\x21\xFF\x0BNETSCAPE2.0\x03\x01\x05\x00\x00\x21\xFF\x0BNETSCAPE2.0\x03\x01\x09\x00\x00\x2C\x00\x00\x00\x00\x01\x00\x01\x00\x00\x02\x02\x44\x01\x00\x3B");
    let mut it = Decoder::new(&v[..]).into_frames();
    let p = it.preamble().unwrap().unwrap();
    assert_eq!(p.loop_count_ext.unwrap().loop_count(), Some(9));
}
''')

seed("A05-display-cause", "A05",
     "an I/O error made from a message",
     "An I/O error is shown as its kind instead of its own text.",
     [(R, "            Error::Io(err) => err.fmt(fmt),\n",
       "            Error::Io(err) => err.kind().fmt(fmt),\n")],
     r'''
fn main() {
    let e = std::io::Error::new(std::io::ErrorKind::Other, "disk full");
    assert_eq!(gift::Error::from(e).to_string(), "disk full");
}
''')

seed("A05-source-int", "A05",
     "an integer conversion error",
     "The source of an integer conversion error is dropped.",
     [(R, "            Error::TryFromInt(ref err) => Some(err),\n",
       "")],
     r'''
use std::error::Error as _;
fn main() {
    let e = u8::try_from(300).unwrap_err();
    assert!(gift::Error::from(e).source().is_some());
}
''')

seed("E02-comment-len", "E02",
     "a comment entry of more than 127 bytes",
     "Long comment entries are cut off at 127 bytes, as if lengths were signed.",
     [(E, "        for c in self.comments() {\n            debug_assert!(!c.is_empty() && c.len() < 256);\n",
       "        for c in self.comments() {\n            let c = &c[..c.len().min(i8::MAX as usize)];\n"
       "            debug_assert!(!c.is_empty() && c.len() < 256);\n")],
     r'''
use gift::block::*;
use gift::Encoder;
fn main() {
    let mut c = Comment::default();
    c.add_comment(&[7; 200]);
    let mut out = vec![];
    Encoder::new(&mut out).into_block_enc().encode(c).unwrap();
    let mut want = vec![0x21, 0xFE, 200];
    want.extend([7; 200]);
    want.push(0);
    assert_eq!(out, want);
}
''')

seed("E02-unknown-first", "E02",
     "an unknown extension with sub-blocks",
     "The sub-blocks of an unknown extension are returned with the label as well, unless there is only one.",
     [(B, "            &self.sub_blocks[1..]\n", "            &self.sub_blocks[(self.sub_blocks.len() > 2) as usize..]\n")],
     r'''
use gift::block::*;
use gift::Encoder;
fn main() {
    let mut u = Unknown::default();
    u.add_sub_block(&[0x77]);
    u.add_sub_block(&[1, 2, 3]);
    let mut out = vec![];
    Encoder::new(&mut out).into_block_enc().encode(u).unwrap();
    assert_eq!(out, [0x21, 0x77, 3, 1, 2, 3, 0]);
}
''')

seed("E04-trailer-first", "E04",
     "a trailer before the preamble",
     "The trailer is accepted without a preamble.",
     [(E, "        if self.has_trailer || !self.has_preamble {\n            return Err(Error::InvalidBlockSequence);\n        }\n"
       "        self.block_enc.encode(Trailer::default())?;\n",
       "        if self.has_trailer {\n            return Err(Error::InvalidBlockSequence);\n        }\n"
       "        self.block_enc.encode(Trailer::default())?;\n")],
     r'''
use gift::Encoder;
fn main() {
    let mut out = vec![];
    let mut e = Encoder::new(&mut out).into_frame_enc();
    assert!(e.encode_trailer().is_err());
}
''')

seed("E04-comments-first", "E04",
     "a preamble with a loop count and comments",
     "Comments are written before the loop count extension.",
     [(E, "        if let Some(cnt) = &preamble.loop_count_ext {\n            self.block_enc.encode(cnt.clone())?;\n        }\n", ""),
      (E, "            self.block_enc.encode(comment.clone())?;\n        }\n",
       "            self.block_enc.encode(comment.clone())?;\n        }\n"
       "        if let Some(cnt) = &preamble.loop_count_ext {\n            self.block_enc.encode(cnt.clone())?;\n        }\n")],
     r'''
use gift::block::*;
use gift::Encoder;
fn main() {
    let mut c = Comment::default();
    c.add_comment(b"x");
    let pre = Preamble { loop_count_ext: Some(Application::with_loop_count(0)), comments: vec![c], ..Preamble::default() };
    let mut out = vec![];
    Encoder::new(&mut out).into_frame_enc().encode_preamble(&pre).unwrap();
    assert_eq!(&out[13..15], &[0x21, 0xFF]);
}
''')

seed("E06-full-sub-block", "E06",
     "compressed data of more than 255 bytes",
     "Compressed data is split into sub-blocks of 256 bytes, whose length byte is zero.",
     [(E, "        for chunk in buffer.chunks(255) {\n", "        for chunk in buffer.chunks(256) {\n")],
     r'''
use gift::block::*;
use gift::Encoder;
fn main() {
    let mut d = ImageData::new(4000);
    d.data_mut().clear();
    let mut x = 1u32;
    for _ in 0..4000 {
        x = x.wrapping_mul(1103515245).wrapping_add(12345);
        d.data_mut().push((x >> 16) as u8);
    }
    let mut out = vec![];
    Encoder::new(&mut out).into_block_enc().encode(d).unwrap();
    let mut i = 1;
    while out[i] != 0 {
        i += 1 + out[i] as usize;
    }
    assert_eq!(i + 1, out.len());
}
''')

seed("D15-background-left", "D15",
     "a frame disposed to background whose left edge is not at zero, followed by another frame",
     "The region cleared after a frame starts at the left edge of the screen.",
     [(D, "            rs.copy_color(frame.region(), SRgba8::default());\n",
       "            let reg = (0, i32::from(frame.top()), u32::from(frame.width()), u32::from(frame.height()));\n"
       "            rs.copy_color(reg, SRgba8::default());\n")],
     STEPS + r'''
fn main() {
    // two frames of one pixel: at (1, 0) with disposal to background, then at (0, 0)
    let g = gif(&[(1, 0, 1, Some((2, None))), (0, 0, 2, None)]);
    let s: Vec<_> = Decoder::new(&g[..]).into_steps().collect::<Result<_, _>>().unwrap();
    assert_eq!(s.len(), 2);
    assert_eq!(px(&s[0], 1), [40, 50, 60, 255]);
    assert_eq!(px(&s[1], 1), [0, 0, 0, 0]);
    assert_eq!(px(&s[1], 0), [70, 80, 90, 255]);
}
''')

seed("D15-global-first", "D15",
     "a frame with a local color table in a file with a global one",
     "The global color table is used for frames which have their own.",
     [(D, "        let clrs = if let Some(tbl) = &frame.local_color_table {\n            tbl.colors()\n        } else if let Some(tbl) = global_tbl {\n",
       "        let clrs = if let Some(tbl) = global_tbl {\n            tbl.colors()\n        } else if let Some(tbl) = &frame.local_color_table {\n")],
     STEPS + r'''
fn main() {
    let mut g = gif(&[(0, 0, 1, None)]);
    let n = g.len();
    // local table with two colors after the image descriptor
    let at = n - 1 - 5 - 1;
    g[at] = 0x80;
    g.splice(at + 1..at + 1, [1, 2, 3, 4, 5, 6]);
    let s: Vec<_> = Decoder::new(&g[..]).into_steps().collect::<Result<_, _>>().unwrap();
    assert_eq!(px(&s[0], 0), [4, 5, 6, 255]);
}
''')

seed("D17-transparent-previous", "D17",
     "a frame with a transparent color and a zero delay",
     "The transparent color of frames without delay is lost.",
     [(D, "            .unwrap_or_default()\n            .transparent_color();\n",
       "            .filter(|c| c.delay_time_cs() > 0)\n            .unwrap_or_default()\n            .transparent_color();\n")],
     STEPS + r'''
fn main() {
    let g = gif(&[(0, 0, 3, Some((1, Some(2))))]);
    let s: Vec<_> = Decoder::new(&g[..]).into_steps().collect::<Result<_, _>>().unwrap();
    assert_eq!(s[0].transparent_color(), Some(2));
}
''')

TSTEP = r'''
use gift::block::*;
use gift::{Decoder, Encoder, Step};
use pix::gray::Gray8;
use pix::rgb::SRgb8;
use pix::{Palette, Raster};
fn step(w: u32, h: u32, colors: &[[u8; 3]]) -> Step {
    let mut p = Palette::new(256);
    for c in colors {
        p.set_entry(SRgb8::new(c[0], c[1], c[2]));
    }
    Step::with_indexed(Raster::<Gray8>::with_clear(w, h), p)
}
fn frames(steps: &[Step]) -> Vec<Frame> {
    let mut out = vec![];
    let mut enc = Encoder::new(&mut out).into_step_enc();
    for s in steps {
        enc.encode_step(s).unwrap();
    }
    drop(enc);
    Decoder::new(&out[..]).into_frames().collect::<Result<_, _>>().unwrap()
}
'''

seed("A04-transparent-none", "A04",
     "the transparent color of a step removed after another setting was made",
     "Setting no transparent color drops the other settings of the step.",
     [(P, "        control.set_transparent_color(clr);\n        if control != GraphicControl::default() {\n",
       "        control.set_transparent_color(clr);\n        if clr.is_some() {\n")],
     TSTEP + r'''
fn main() {
    let s = step(1, 1, &[[1, 2, 3]]).with_delay_time_cs(Some(7)).with_transparent_color(Some(0)).with_transparent_color(None);
    assert_eq!(s.delay_time_cs(), Some(7));
}
''')

seed("A04-disposal-delay", "A04",
     "the disposal method of a step set after its delay only",
     "Setting the disposal method drops the delay if there is no transparent color.",
     [(P, "        let mut control = self.graphic_control_ext.unwrap_or_default();\n        control.set_disposal_method(method);\n",
       "        let mut control = self\n            .graphic_control_ext\n            .filter(|c| c.transparent_color().is_some())\n            .unwrap_or_default();\n"
       "        control.set_disposal_method(method);\n")],
     TSTEP + r'''
fn main() {
    let s = step(1, 1, &[[1, 2, 3]]).with_delay_time_cs(Some(7)).with_disposal_method(DisposalMethod::Keep);
    let f = frames(&[s]);
    assert_eq!(f[0].graphic_control_ext.unwrap().delay_time_cs(), 7);
}
''')

PLAY = r'''
use gift::block::*;
use gift::{Decoder, Encoder};
fn gif(loops: Option<u16>, n: usize) -> Vec<u8> {
    let mut out = vec![];
    let mut enc = Encoder::new(&mut out).into_frame_enc();
    let pre = Preamble {
        logical_screen_desc: LogicalScreenDesc::default().with_screen_width(1).with_screen_height(1),
        loop_count_ext: loops.map(Application::with_loop_count),
        ..Preamble::default()
    };
    enc.encode_preamble(&pre).unwrap();
    for i in 0..n {
        let mut g = GraphicControl::default();
        g.set_delay_time_cs(i as u16 + 1);
        let cfg = ColorTableConfig::new(ColorTableExistence::Present, ColorTableOrdering::NotSorted, 2);
        let d = ImageDesc::default().with_width(1).with_height(1).with_color_table_config(cfg);
        let mut data = ImageData::new(1);
        data.data_mut().push(0);
        enc.encode_frame(&Frame::new(Some(g), d, Some(LocalColorTable::with_colors(&[0; 6])), data)).unwrap();
    }
    enc.encode_trailer().unwrap();
    out
}
fn delays(g: &[u8], max: usize) -> Vec<u16> {
    Decoder::new(g).into_iter().take(max).map(|s| s.unwrap().delay_time_cs().unwrap_or(0)).collect()
}
'''

seed("D16-repeat-forever", "D16",
     "a file with a loop count of one or more, played to its end",
     "The last repetition is followed by endless repetitions.",
     [(D, "                Ordering::Equal => self.loop_count = None,\n", "                Ordering::Equal => self.loop_count = Some(0),\n")],
     PLAY + r'''
fn main() {
    assert_eq!(delays(&gif(Some(2), 2), 50), [1, 2, 1, 2, 1, 2]);
}
''')

seed("D16-repeat-last", "D16",
     "a looping file with more than one frame",
     "A repetition starts with the last step instead of the first.",
     [(D, "            if let Some(step) = self.steps.first() {\n", "            if let Some(step) = self.steps.last() {\n")],
     PLAY + r'''
fn main() {
    assert_eq!(delays(&gif(Some(1), 3), 50), [1, 2, 3, 1, 2, 3]);
}
''')

seed("E05-table-length", "E05",
     "two steps whose palettes have as many, but different colors",
     "No local color table is written if it is as long as the global one.",
     [(E, "                if pre.global_color_table != preamble.global_color_table {\n",
       "                if pre.global_color_table.as_ref().map(|t| t.len())\n                    != preamble.global_color_table.as_ref().map(|t| t.len())\n                {\n")],
     TSTEP + r'''
fn main() {
    let f = frames(&[step(1, 1, &[[1, 2, 3]]), step(1, 1, &[[4, 5, 6]])]);
    assert!(f[0].local_color_table.is_none());
    assert_eq!(f[1].local_color_table.as_ref().unwrap().colors(), &[4, 5, 6, 0, 0, 0]);
}
''')

seed("E05-height-only", "E05",
     "steps of the same width and different heights",
     "Steps with another height than the first are written without an error.",
     [(E, "                if !pre\n                    .logical_screen_desc\n                    .equal_size(preamble.logical_screen_desc)\n                {\n",
       "                if pre.logical_screen_desc.screen_width()\n                    != preamble.logical_screen_desc.screen_width()\n                {\n")],
     TSTEP + r'''
fn main() {
    let mut out = vec![];
    let mut enc = Encoder::new(&mut out).into_step_enc();
    enc.encode_step(&step(2, 2, &[[1, 2, 3]])).unwrap();
    assert!(enc.encode_step(&step(2, 3, &[[1, 2, 3]])).is_err());
}
''')

seed("E05-local-config", "E05",
     "a step whose palette differs from the one of the first step",
     "The image descriptor does not announce the local color table which follows it.",
     [(E, "                        image_desc.with_color_table_config(tbl_cfg),\n", "                        image_desc,\n")],
     TSTEP + r'''
fn main() {
    let mut out = vec![];
    let mut enc = Encoder::new(&mut out).into_step_enc();
    enc.encode_step(&step(1, 1, &[[1, 2, 3]])).unwrap();
    enc.encode_step(&step(1, 1, &[[4, 5, 6]])).unwrap();
    drop(enc);
    let mut it = Decoder::new(&out[..]).into_frames();
    assert!(it.next().unwrap().is_ok());
    let f = it.next().unwrap().unwrap();
    assert_eq!(f.local_color_table.unwrap().colors(), &[4, 5, 6, 0, 0, 0]);
}
''')

seed("E07-wide-raster", "E07",
     "a step whose raster is wider than 65535 pixels",
     "Encoding a raster too wide for a GIF file panics.",
     [(E, "    let width = raster.width().try_into()?;\n", "    let width = raster.width().try_into().expect(\"width\");\n")],
     TSTEP + r'''
fn main() {
    let mut out = vec![];
    let mut enc = Encoder::new(&mut out).into_step_enc();
    let s = step(65536, 1, &[[1, 2, 3]]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| enc.encode_step(&s).is_err()));
    assert_eq!(r.ok(), Some(true));
}
''')

seed("D01-color-index", "D01",
     "a color index just past the end of the color table",
     "A color index equal to the table length panics instead of giving an error.",
     [(D, "            if i + 2 > clrs.len() {\n", "            if i > clrs.len() {\n")],
     STEPS + r'''
fn main() {
    let mut g = gif(&[(0, 0, 2, None)]);
    // table of two colors
    g[10] = 0x80;
    g.drain(19..25);
    let r = std::panic::catch_unwind(|| Decoder::new(&g[..]).into_steps().next().unwrap().is_err());
    assert_eq!(r.ok(), Some(true));
}
''')

seed("D01-long-sub-block", "D01",
     "a sub-block of 255 bytes",
     "The longest sub-blocks do not fit the buffer and panic.",
     [(D, "        let mut buf = [0; 256];\n", "        let mut buf = [0; 255];\n")],
     r'''
use gift::block::*;
use gift::{Decoder, Encoder};
fn main() {
    let mut c = Comment::default();
    c.add_comment(&[7; 255]);
    let mut out = vec![];
    let pre = Preamble { comments: vec![c], ..Preamble::default() };
    let mut enc = Encoder::new(&mut out).into_frame_enc();
    enc.encode_preamble(&pre).unwrap();
    enc.encode_trailer().unwrap();
    let r = std::panic::catch_unwind(|| Decoder::new(&out[..]).into_blocks().all(|b| b.is_ok()));
    assert_eq!(r.ok(), Some(true));
}
''')
