//! Attributes of block types
use crate::ai::*;
use gift::block::*;

/// Three-bit code of a disposal method
fn code(d: DisposalMethod) -> u8 {
    match d {
        DisposalMethod::NoAction => 0,
        DisposalMethod::Keep => 1,
        DisposalMethod::Background => 2,
        DisposalMethod::Previous => 3,
        DisposalMethod::Reserved(n) => n & 7,
    }
}

fn any_disposal() -> DisposalMethod {
    any_val()
}

fn any_control() -> GraphicControl {
    let mut g = GraphicControl::default();
    g.set_flags(any_u8());
    g.set_delay_time_cs(any_u16());
    g.set_transparent_color_idx(any_u8());
    g
}

pub fn r_control_fields() {
    let (f, d, t) = (any_u8(), any_u16(), any_u8());
    let mut g = any_control();
    g.set_flags(f);
    g.set_delay_time_cs(d);
    g.set_transparent_color_idx(t);
    check("A01 control flags", g.flags() == f);
    check("A01 control delay", g.delay_time_cs() == d);
    check("A01 control transparent index", g.transparent_color_idx() == t);
    check("A01 disposal bits", code(g.disposal_method()) == f >> 2 & 7);
    check("A01 user input bit", g.user_input() == (f & 2 != 0));
    let c = if f & 1 != 0 { Some(t) } else { None };
    check("A01 transparent color bit", g.transparent_color() == c);
    reach("A01 control");
}

pub fn r_control_disposal() {
    let mut g = any_control();
    let o = g;
    let m = any_disposal();
    g.set_disposal_method(m);
    let k = code(m);
    check("A01 disposal code set", code(g.disposal_method()) == k);
    let e = match k {
        0 => DisposalMethod::NoAction,
        1 => DisposalMethod::Keep,
        2 => DisposalMethod::Background,
        3 => DisposalMethod::Previous,
        _ => DisposalMethod::Reserved(k),
    };
    check("A01 disposal method set", g.disposal_method() == e);
    check("A01 disposal bits set", g.flags() & 0b1110_0011 == o.flags() & 0b1110_0011);
    check("A01 disposal position", g.flags() & 0b0001_1100 == k << 2);
    check("A01 disposal keeps delay", g.delay_time_cs() == o.delay_time_cs());
    check("A01 disposal keeps index", g.transparent_color_idx() == o.transparent_color_idx());
    check("A01 disposal keeps color", g.transparent_color() == o.transparent_color());
    check("A01 disposal keeps user input", g.user_input() == o.user_input());
    reach("A01 disposal");
}

pub fn r_control_input() {
    let mut g = any_control();
    let o = g;
    let u = any_bool();
    g.set_user_input(u);
    check("A01 user input set", g.user_input() == u);
    check("A01 user input position", g.flags() == o.flags() & 0b1111_1101 | (u as u8) << 1);
    check("A01 user input keeps delay", g.delay_time_cs() == o.delay_time_cs());
    check("A01 user input keeps color", g.transparent_color() == o.transparent_color());
    check("A01 user input keeps disposal", code(g.disposal_method()) == code(o.disposal_method()));
    reach("A01 user input");
}

pub fn r_control_color() {
    let mut g = any_control();
    let o = g;
    let c = if any_bool() { Some(any_u8()) } else { None };
    g.set_transparent_color(c);
    check("A01 transparent color set", g.transparent_color() == c);
    check("A01 transparent color position", g.flags() == o.flags() & 0b1111_1110 | c.is_some() as u8);
    if let Some(c) = c {
        check("A01 transparent index set", g.transparent_color_idx() == c);
    }
    check("A01 transparent color keeps delay", g.delay_time_cs() == o.delay_time_cs());
    check("A01 transparent color keeps input", g.user_input() == o.user_input());
    check("A01 transparent color keeps disposal", code(g.disposal_method()) == code(o.disposal_method()));
    reach("A01 transparent color");
}

pub fn r_control_delay() {
    let mut g = any_control();
    let o = g;
    let d = any_u16();
    g.set_delay_time_cs(d);
    check("A01 delay set", g.delay_time_cs() == d);
    check("A01 delay keeps flags", g.flags() == o.flags());
    check("A01 delay keeps index", g.transparent_color_idx() == o.transparent_color_idx());
    let t = any_u8();
    let o = g;
    g.set_transparent_color_idx(t);
    check("A01 index set", g.transparent_color_idx() == t);
    check("A01 index keeps flags", g.flags() == o.flags());
    check("A01 index keeps delay", g.delay_time_cs() == d);
    reach("A01 delay");
}

fn any_image_desc() -> ImageDesc {
    ImageDesc::default()
        .with_left(any_u16())
        .with_top(any_u16())
        .with_width(any_u16())
        .with_height(any_u16())
        .with_flags(any_u8())
}

fn any_screen_desc() -> LogicalScreenDesc {
    LogicalScreenDesc::default()
        .with_screen_width(any_u16())
        .with_screen_height(any_u16())
        .with_flags(any_u8())
        .with_background_color_idx(any_u8())
        .with_pixel_aspect_ratio(any_u8())
}

pub fn r_image_fields() {
    let (l, t, w, h, f) = (any_u16(), any_u16(), any_u16(), any_u16(), any_u8());
    let d = any_image_desc();
    let e = d.with_left(l);
    check("A01 left", e.left() == l && e.top() == d.top() && e.width() == d.width() && e.height() == d.height() && e.flags() == d.flags());
    let e = d.with_top(t);
    check("A01 top", e.top() == t && e.left() == d.left() && e.width() == d.width() && e.height() == d.height() && e.flags() == d.flags());
    let e = d.with_width(w);
    check("A01 width", e.width() == w && e.left() == d.left() && e.top() == d.top() && e.height() == d.height() && e.flags() == d.flags());
    let e = d.with_height(h);
    check("A01 height", e.height() == h && e.left() == d.left() && e.top() == d.top() && e.width() == d.width() && e.flags() == d.flags());
    check("A01 image size", e.image_sz() == d.width() as usize * h as usize);
    let e = d.with_flags(f);
    check("A01 image flags", e.flags() == f && e.left() == d.left() && e.top() == d.top() && e.width() == d.width() && e.height() == d.height());
    check("A01 interlaced bit", e.interlaced() == (f & 0x40 != 0));
    let i = any_bool();
    let e = d.with_interlaced(i);
    check("A01 interlaced set", e.interlaced() == i);
    check("A01 interlaced position", e.flags() == d.flags() & 0b1011_1111 | (i as u8) << 6);
    check("A01 interlaced keeps fields", e.left() == d.left() && e.top() == d.top() && e.width() == d.width() && e.height() == d.height());
    reach("A01 image");
}

pub fn r_screen_fields() {
    let (w, h, f, b, a) = (any_u16(), any_u16(), any_u8(), any_u8(), any_u8());
    let d = any_screen_desc();
    let e = d.with_screen_width(w);
    check("A01 screen width", e.screen_width() == w && e.screen_height() == d.screen_height() && e.flags() == d.flags() && e.background_color_idx() == d.background_color_idx() && e.pixel_aspect_ratio() == d.pixel_aspect_ratio());
    let e = d.with_screen_height(h);
    check("A01 screen height", e.screen_height() == h && e.screen_width() == d.screen_width() && e.flags() == d.flags() && e.background_color_idx() == d.background_color_idx() && e.pixel_aspect_ratio() == d.pixel_aspect_ratio());
    let e = d.with_flags(f);
    check("A01 screen flags", e.flags() == f && e.screen_width() == d.screen_width() && e.screen_height() == d.screen_height() && e.background_color_idx() == d.background_color_idx() && e.pixel_aspect_ratio() == d.pixel_aspect_ratio());
    let n = f >> 4 & 7;
    check("A01 color resolution bits", e.color_resolution() == 2 << n);
    let e = d.with_background_color_idx(b);
    check("A01 background", e.background_color_idx() == b && e.screen_width() == d.screen_width() && e.screen_height() == d.screen_height() && e.flags() == d.flags() && e.pixel_aspect_ratio() == d.pixel_aspect_ratio());
    let e = d.with_pixel_aspect_ratio(a);
    check("A01 aspect", e.pixel_aspect_ratio() == a && e.screen_width() == d.screen_width() && e.screen_height() == d.screen_height() && e.flags() == d.flags() && e.background_color_idx() == d.background_color_idx());
    let o = any_screen_desc();
    check("A01 equal size", d.equal_size(o) == (d.screen_width() == o.screen_width() && d.screen_height() == o.screen_height()));
    reach("A01 screen");
}

fn any_config() -> ColorTableConfig {
    ColorTableConfig::new(any_val(), any_val(), any_u16())
}

pub fn r_config() {
    let n = any_u16();
    let (ex, or): (ColorTableExistence, ColorTableOrdering) = (any_val(), any_val());
    let c = ColorTableConfig::new(ex, or, n);
    check("A02 existence", c.existence() == ex);
    check("A02 ordering", c.ordering() == or);
    let k = c.len();
    if ex == ColorTableExistence::Absent {
        check("A02 absent is empty", k == 0 && c.is_empty());
    } else {
        check("A02 power of two", k == 2 || k == 4 || k == 8 || k == 16 || k == 32 || k == 64 || k == 128 || k == 256);
        check("A02 large enough", k >= n as usize || k == 256);
        check("A02 smallest", k == 2 || k / 2 < n as usize);
        check("A02 not empty", !c.is_empty());
    }
    check("A02 size", c.size_bytes() == 3 * k);
    reach("A02 config");
}

pub fn r_config_screen() {
    let c = any_config();
    let d = any_screen_desc();
    let e = d.with_color_table_config(c);
    let r = e.color_table_config();
    check("A02 screen existence", r.existence() == c.existence());
    check("A02 screen ordering", r.ordering() == c.ordering());
    check("A02 screen length", r.len() == c.len());
    check("A02 screen configuration", r == c);
    check("A02 screen keeps fields", e.screen_width() == d.screen_width() && e.screen_height() == d.screen_height() && e.background_color_idx() == d.background_color_idx() && e.pixel_aspect_ratio() == d.pixel_aspect_ratio());
    reach("A02 screen");
}

pub fn r_config_image() {
    let c = any_config();
    let d = any_image_desc();
    let e = d.with_color_table_config(c);
    let r = e.color_table_config();
    check("A02 image existence", r.existence() == c.existence());
    check("A02 image ordering", r.ordering() == c.ordering());
    check("A02 image length", r.len() == c.len());
    check("A02 image configuration", r == c);
    check("A02 image keeps interlace", e.interlaced() == d.interlaced());
    check("A02 image keeps fields", e.left() == d.left() && e.top() == d.top() && e.width() == d.width() && e.height() == d.height());
    reach("A02 image");
}

pub fn r_config_flags() {
    let f = any_u8();
    let c = any_screen_desc().with_flags(f).color_table_config();
    check("A02 screen present bit", (c.existence() == ColorTableExistence::Present) == (f & 0x80 != 0));
    check("A02 screen sort bit", (c.ordering() == ColorTableOrdering::Sorted) == (f & 0x08 != 0));
    check("A02 screen size bits", f & 0x80 == 0 || c.len() == 2usize << (f & 7));
    let c = any_image_desc().with_flags(f).color_table_config();
    check("A02 image present bit", (c.existence() == ColorTableExistence::Present) == (f & 0x80 != 0));
    check("A02 image sort bit", (c.ordering() == ColorTableOrdering::Sorted) == (f & 0x20 != 0));
    check("A02 image size bits", f & 0x80 == 0 || c.len() == 2usize << (f & 7));
    reach("A02 flags");
}

pub fn r_loop_count() {
    let n = any_u16();
    let a = Application::with_loop_count(n);
    check("A03 loop count", a.loop_count() == Some(n));
    let d = a.app_data();
    check("A03 two entries", d.len() == 2);
    check("A03 identifier", d[0][..] == *b"NETSCAPE2.0");
    check("A03 data", d[1][..] == [1, n as u8, (n >> 8) as u8]);
    reach("A03 with loop count");
}

/// Any entry accepted by the block types
fn any_entry() -> Vec<u8> {
    let b = any_bytes();
    assume(!b.is_empty() && b.len() < 256);
    b
}

pub fn r_loop_count_any() {
    let mut a = Application::default();
    check("A03 empty", a.loop_count().is_none());
    let (x, y) = (any_entry(), any_entry());
    a.add_app_data(&x);
    check("A03 one entry", a.loop_count().is_none());
    a.add_app_data(&y);
    // 0: no looping identifier
    let id = if x[..] == *b"NETSCAPE2.0" {
        1
    } else if x[..] == *b"ANIMEXTS1.0" {
        2
    } else {
        0
    };
    let n = a.loop_count();
    if id > 0 && y.len() == 3 && y[0] == 1 {
        check("A03 little-endian", n == Some(y[1] as u16 + 256 * y[2] as u16));
        reach("A03 looping");
    } else {
        check("A03 not looping", n.is_none());
        reach("A03 not looping");
    }
    a.add_app_data(&any_entry());
    check("A03 three entries", a.loop_count().is_none());
    while any_bool() {
        a.add_app_data(&any_entry());
        check("A03 more entries", a.loop_count().is_none());
        reach("A03 many");
    }
}
