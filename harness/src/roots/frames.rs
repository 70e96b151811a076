//! Decoding of frames
use crate::ai::*;
use crate::fmon::*;
use gift::Decoder;
use gift::block::*;

fn frames(mut it: gift::decode::Frames<FSrc>, m: &mut FMon) {
    loop {
        match it.next() {
            Some(Ok(f)) => m.frame(&f),
            Some(Err(e)) => {
                m.error(&e);
                check("D03 frames end after error", it.next().is_none());
                reach("D03 frame error");
                return;
            }
            None => {
                check("D13 end after trailer", m.due == Due::End && !m.over);
                reach("D13 end");
                return;
            }
        }
    }
}

pub fn r_frames() {
    let mut m = FMon::new(None);
    let p = &mut m as *mut FMon;
    let it = Decoder::new(FSrc { mon: p }).max_image_sz(None).into_frames();
    frames(it, &mut m);
}

pub fn r_preamble() {
    abstract_loop_count();
    let mut m = FMon::new(Some(Preamble::default()));
    let p = &mut m as *mut FMon;
    let mut it = Decoder::new(FSrc { mon: p }).max_image_sz(None).into_frames();
    match it.preamble() {
        Ok(Some(p)) => {
            check("D14 preamble ends at first frame", m.started && m.due == Due::Nothing && !m.over);
            let q = m.pre.as_ref().unwrap();
            check("D14 header", p.header == q.header);
            check("D14 screen descriptor", p.logical_screen_desc == q.logical_screen_desc);
            check("D14 global color table", p.global_color_table == q.global_color_table);
            check("D14 looping extension", p.loop_count_ext == q.loop_count_ext);
            check("D14 comments", p.comments == q.comments);
            reach("D14 preamble");
        }
        Ok(None) => check("D14 preamble not skipped", false),
        Err(e) => {
            match e {
                gift::Error::InvalidBlockSequence => {
                    check("D14 no frame in stream", m.due == Due::End && !m.started);
                    reach("D14 no frame");
                }
                _ => {
                    check("D14 error before first frame", m.due == Due::Nothing && !m.started);
                    check("D03 frames end after preamble error", it.next().is_none());
                }
            }
            return;
        }
    }
    m.pre = None;
    if let Some(Ok(f)) = it.next() {
        check("D14 first frame is due", m.due == Due::Frame && !m.over);
        check("D14 graphic control of first frame", f.graphic_control_ext == m.gce);
        check("D14 image descriptor of first frame", Some(f.image_desc) == m.desc);
        reach("D14 first frame");
    }
}
