//! Projections of library values to JSON (numbers as bit patterns, bytes as Latin-1 strings).
use bvh_anim::{
    errors::{LoadError, LoadErrorKind, LoadJointsError, LoadMotionError},
    Bvh, Joint,
};
use serde_json::{json, Value};
use std::error::Error;

pub fn latin(b: &[u8]) -> String {
    b.iter().map(|&c| c as char).collect()
}
pub fn unlatin(s: &str) -> Vec<u8> {
    s.chars().map(|c| u32::from(c) as u8).collect()
}
pub fn bits(f: f32) -> String {
    format!("{:08x}", f.to_bits())
}
pub fn unbits(v: &Value) -> f32 {
    f32::from_bits(u32::from_str_radix(v.as_str().unwrap(), 16).unwrap())
}
pub fn fr(f: &[f32]) -> Value {
    Value::Array(f.iter().map(|v| Value::String(bits(*v))).collect())
}
pub fn off(o: &[f32; 3]) -> Value {
    fr(&o[..])
}

pub fn joint(j: &Joint) -> Value {
    let ch: Vec<Value> = j
        .channels()
        .iter()
        .map(|c| json!([c.channel_type().as_str(), c.motion_index()]))
        .collect();
    let children: Vec<Value> = j.children().take(200_000).map(|c| json!([c.index(), latin(c.name())])).collect();
    json!({
        "i": j.index(),
        "name": latin(j.name()),
        "off": off(j.offset()),
        "es": j.end_site().map(off).unwrap_or(json!([])),
        "hes": j.has_end_site(),
        "ch": ch,
        "par": j.parent_index().map(|p| p as i64).unwrap_or(-1),
        "parj": j.parent().map(|p| p.index() as i64).unwrap_or(-1),
        "parn": j.parent().map(|p| latin(p.name())).unwrap_or_default(),
        "root": j.is_root(),
        "child": j.is_child(),
        "kids": children,
    })
}

pub fn snap(b: &mut Bvh) -> Value {
    let jm = b.joints_mut().take(200_000).count();
    let b = &*b;
    let joints: Vec<Value> = b.joints().take(200_000).map(|j| joint(&j)).collect();
    let frames: Vec<Value> = b.frames().take(10_000_000).map(|f| fr(f.as_slice())).collect();
    #[allow(deprecated)]
    let nf = b.num_frames();
    json!({
        "joints": joints,
        "jm": jm,
        "root": b.root_joint().map(|j| json!([j.index(), latin(j.name())])).unwrap_or(json!([])),
        "nc": b.num_channels(),
        "ft": format!("{}", b.frame_time().as_nanos()),
        "frames": frames,
        "nf": nf,
        "len": b.frames().len(),
    })
}

pub fn io_err(e: &std::io::Error) -> Value {
    json!({"kind": format!("{:?}", e.kind()), "msg": e.to_string()})
}

pub fn err(e: LoadError) -> Value {
    let mut o = json!({
        "line": e.line().map(|l| l as i64).unwrap_or(-1),
        "iline": -1, "axis": "", "idx": -1, "act": "", "exp": "", "fr": "", "cl": "",
        "bad": "", "io": {"kind": "", "msg": ""}, "perr": false, "disp": e.to_string(),
        "dbg": format!("{:?}", e).len(),
        "pcbad": "",
    });
    let mut chain = vec![];
    let mut src = e.source();
    while let Some(s) = src {
        chain.push(Value::String(s.to_string()));
        src = s.source();
        if chain.len() > 20 {
            break;
        }
    }
    o["chain"] = Value::Array(chain);
    {
        // the last source in the chain by type
        let mut kinds = vec![];
        let mut src = e.source();
        while let Some(s) = src {
            kinds.push(json!(if s.is::<LoadJointsError>() {
                "joints"
            } else if s.is::<LoadMotionError>() {
                "motion"
            } else if s.is::<std::io::Error>() {
                "io"
            } else if s.is::<bvh_anim::errors::ParseChannelError>() {
                "channel"
            } else {
                "other"
            }));
            src = s.source();
            if kinds.len() > 20 {
                break;
            }
        }
        o["ctypes"] = Value::Array(kinds);
    }
    let (sec, kind);
    let line = |l: Option<usize>| l.map(|l| json!(l)).unwrap_or(json!(-1));
    match e.kind() {
        LoadErrorKind::Joints(k) => {
            sec = "Joints";
            o["iline"] = line(k.line());
        }
        LoadErrorKind::Motion(k) => {
            sec = "Motion";
            o["iline"] = line(k.line());
        }
    }
    o["fline"] = json!(-1);
    match e.into_kind() {
        LoadErrorKind::Joints(k) => match k {
            LoadJointsError::Io(e) => {
                kind = "Io";
                o["io"] = io_err(&e);
            }
            LoadJointsError::MissingRoot => kind = "MissingRoot",
            LoadJointsError::MissingJointName { line } => {
                kind = "MissingJointName";
                o["fline"] = json!(line);
            }
            LoadJointsError::UnexpectedKeyword { line } => {
                kind = "UnexpectedKeyword";
                o["fline"] = json!(line);
            }
            LoadJointsError::UnexpectedChannelsSection { line } => {
                kind = "UnexpectedChannelsSection";
                o["fline"] = json!(line);
            }
            LoadJointsError::ParseNumChannelsError { line, error } => {
                kind = "ParseNumChannelsError";
                o["fline"] = json!(line);
                o["perr"] = json!(error.is_some());
            }
            LoadJointsError::ParseChannelError { line, error } => {
                kind = "ParseChannelError";
                o["fline"] = json!(line);
                o["pcbad"] = json!(error.to_string());
                o["bad"] = json!(latin(&error.into_inner()));
            }
            LoadJointsError::UnexpectedOffsetSection { line } => {
                kind = "UnexpectedOffsetSection";
                o["fline"] = json!(line);
            }
            LoadJointsError::ParseOffsetError { line, axis, .. } => {
                kind = "ParseOffsetError";
                o["fline"] = json!(line);
                o["perr"] = json!(true);
                o["axis"] = json!(format!("{:?}", axis));
            }
            LoadJointsError::MissingOffsetAxis { line, axis } => {
                kind = "MissingOffsetAxis";
                o["fline"] = json!(line);
                o["axis"] = json!(format!("{:?}", axis));
            }
            #[allow(unreachable_patterns)]
            _ => kind = "Unknown",
        },
        LoadErrorKind::Motion(k) => match k {
            LoadMotionError::Io(e) => {
                kind = "Io";
                o["io"] = io_err(&e);
            }
            LoadMotionError::MissingMotionSection { line } => {
                kind = "MissingMotionSection";
                o["fline"] = json!(line);
            }
            LoadMotionError::MissingNumFrames { line, parse_error } => {
                kind = "MissingNumFrames";
                o["fline"] = json!(line);
                o["perr"] = json!(parse_error.is_some());
            }
            LoadMotionError::MissingFrameTime { line, parse_error } => {
                kind = "MissingFrameTime";
                o["fline"] = json!(line);
                o["perr"] = json!(parse_error.is_some());
            }
            LoadMotionError::ParseMotionSection { line, channel_index, .. } => {
                kind = "ParseMotionSection";
                o["fline"] = json!(line);
                o["perr"] = json!(true);
                o["idx"] = json!(channel_index);
            }
            LoadMotionError::MotionCountMismatch {
                actual_total_motion_values,
                expected_total_motion_values,
                expected_num_frames,
                expected_num_clips,
            } => {
                kind = "MotionCountMismatch";
                o["act"] = json!(actual_total_motion_values.to_string());
                o["exp"] = json!(expected_total_motion_values.to_string());
                o["fr"] = json!(expected_num_frames.to_string());
                o["cl"] = json!(expected_num_clips.to_string());
            }
            #[allow(unreachable_patterns)]
            _ => kind = "Unknown",
        },
        #[allow(unreachable_patterns)]
        _ => kind = "Unknown",
    }
    o["sec"] = json!(sec);
    o["kind"] = json!(kind);
    o
}
