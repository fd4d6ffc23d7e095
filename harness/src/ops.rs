//! The operations a script can contain.
use crate::{alloc, io_fakes, project::*};
use bstr::BStr;
use bvh_anim::{
    errors::{LoadError, ParseChannelError},
    frames::{Frame, FrameMut, Frames, FramesMut},
    write::{IndentStyle, LineTerminator, WriteOptions},
    Bvh, Channel, ChannelType,
};
use serde_json::{json, Value};
use std::{
    borrow::{Borrow, BorrowMut},
    collections::HashMap,
    convert::TryFrom,
    io::BufReader,
    panic::{catch_unwind, AssertUnwindSafe},
    str::FromStr,
    time::Duration,
};

type Slots = HashMap<String, Bvh>;

pub fn run_case(case: &Value) -> Value {
    let mut slots: Slots = HashMap::new();
    let mut out = vec![];
    for op in case["ops"].as_array().unwrap() {
        match catch_unwind(AssertUnwindSafe(|| run_op(op, &mut slots))) {
            Ok(v) => out.push(v),
            Err(e) => {
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                out.push(json!({ "panic": msg }));
                break;
            }
        }
    }
    Value::Array(out)
}

fn s<'a>(v: &'a Value) -> &'a str {
    v.as_str().unwrap_or_else(|| panic!("adapter: not a string: {v}"))
}
fn n(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("adapter: not a number: {v}")) as usize
}
fn frame(v: &Value) -> Vec<f32> {
    v.as_array().unwrap().iter().map(unbits).collect()
}

fn run_op(op: &Value, slots: &mut Slots) -> Value {
    let slot = op["slot"].as_str().unwrap_or("a").to_string();
    macro_rules! bvh {
        () => {
            match slots.get_mut(&slot) {
                Some(b) => b,
                None => return json!({"none": true}),
            }
        };
    }
    match s(&op["op"]) {
        "load" => {
            let (v, b) = load(op);
            if let Some(b) = b {
                slots.insert(slot, b);
            } else {
                slots.remove(&slot);
            }
            v
        }
        "new" => {
            slots.insert(slot, if op["default"] == true { Bvh::default() } else { Bvh::new() });
            json!({})
        }
        "snap" => snap(bvh!()),
        "clone" => {
            let c = bvh!().clone();
            slots.insert(s(&op["to"]).to_string(), c);
            json!({})
        }
        "clone_from" => {
            let c = match slots.get(s(&op["from"])) {
                Some(c) => c.clone(),
                None => return json!({"none": true}),
            };
            bvh!().clone_from(&c);
            json!({})
        }
        "eq" => {
            let (a, b) = match (slots.get(&slot), slots.get(s(&op["to"]))) {
                (Some(a), Some(b)) => (a, b),
                _ => return json!({"none": true}),
            };
            json!({"eq": a == b, "ne": a != b, "qe": b == a})
        }
        "setft" => {
            let d = Duration::new(s(&op["s"]).parse().unwrap(), n(&op["n"]) as u32);
            bvh!().set_frame_time(d);
            json!({})
        }
        "extract" => {
            let v = bvh!().extract_frames();
            json!({"vals": fr(&v)})
        }
        "debug" => json!({"len": format!("{:?}", bvh!()).len()}),
        "write" => write(op, bvh!()),
        "options" => set_options(op, bvh!()),
        "terms" => terms(op),
        "reload" => {
            let (text, orig) = {
                let b = bvh!();
                (options(&op["opts"]).write_to_string(b), b.clone())
            };
            let mut l = op.clone();
            l["data"] = json!(latin(&text));
            let (mut v, b) = load(&l);
            if let Some(b) = b {
                v["eq"] = json!(b == orig && orig == b && !(b != orig));
                slots.insert(s(&op["to"]).to_string(), b);
            } else {
                v["text"] = l["data"].clone();
                slots.remove(s(&op["to"]));
            }
            v
        }
        "cursor" => cursor(op, slots, &slot),
        "iter" => iter(op, bvh!()),
        "access" => access(op, slots, &slot),
        "find" => find(op, bvh!()),
        "probe" => probe(op, bvh!()),
        "compare" => {
            let (mut a, mut b) = match (slots.get(&slot), slots.get(s(&op["to"]))) {
                (Some(a), Some(b)) => (a.clone(), b.clone()),
                _ => return json!({"none": true}),
            };
            compare(op, &mut a, &mut b)
        }
        "chan" => chan(op),
        "seterr" => json!({
            "ch": bvh_anim::errors::SetMotionError::BadChannel(n(&op["i"])).to_string(),
            "fr": bvh_anim::errors::SetMotionError::BadFrame(n(&op["i"])).to_string(),
        }),
        o => panic!("adapter: unknown op {o}"),
    }
}

/// How two Bvhs compare, and some of their parts: those numbered by js, fs and cs, of both.
fn compare(op: &Value, a: &mut Bvh, b: &mut Bvh) -> Value {
    let at = |k: &str| op[k].as_array().unwrap().iter().map(n).collect::<Vec<_>>();
    fn some<T>(i: impl Iterator<Item = T>, at: &[usize]) -> Vec<T> {
        i.enumerate().filter(|(k, _)| at.contains(k)).map(|x| x.1).collect()
    }
    fn matrix<T: PartialEq>(x: &[T], y: &[T]) -> Vec<Vec<(bool, bool)>> {
        x.iter().map(|x| y.iter().map(|y| (x == y, x != y)).collect()).collect()
    }
    let (js, fs, cs) = (at("js"), at("fs"), at("cs"));
    let (eq, me) = (json!([a == b, b == a, a != b, b != a]), json!([a == &a.clone(), b == &b.clone(), &*a == &*a, &*b == &*b]));
    // each with itself
    let jself: Vec<bool> = some(a.joints(), &js).iter().map(|x| x == x).collect();
    let fself: Vec<bool> = some(a.frames(), &fs).iter().map(|x| x == x && x.as_slice() == x.as_slice()).collect();
    let mself: Vec<bool> = some(a.frames_mut(), &fs).iter().map(|x| x == x).collect();
    let joints = matrix(&some(a.joints(), &js), &some(b.joints(), &js));
    let frames = matrix(&some(a.frames(), &fs), &some(b.frames(), &fs));
    let of = |v: &Bvh| some(v.joints().flat_map(|j| j.channels().to_vec()), &cs);
    let (cx, cy) = (of(a), of(b));
    let channels: Vec<Vec<_>> = cx
        .iter()
        .map(|x| cy.iter().map(|y| (x == y && !(x != y), x.channel_type() == y.channel_type())).collect())
        .collect();
    let hashes = cx.iter().all(|x| {
        cy.iter().all(|y| {
            (x != y || hash(x) == hash(y))
                && (x.channel_type() != y.channel_type() || hash(&x.channel_type()) == hash(&y.channel_type()))
        })
    });
    let muts = matrix(&some(a.frames_mut(), &fs), &some(b.frames_mut(), &fs));
    json!({"eq": eq, "self": me, "jself": jself, "fself": fself, "mself": mself, "joints": joints, "frames": frames, "framesmut": muts, "channels": channels, "hash": hashes})
}

fn load(op: &Value) -> (Value, Option<Bvh>) {
    let data = match op["data"].as_str() {
        Some(d) => unlatin(d),
        None => op["parts"]
            .as_array()
            .unwrap()
            .iter()
            .flat_map(|p| unlatin(s(&p[0])).repeat(n(&p[1])))
            .collect(),
    };
    let entry = op["entry"].as_str().unwrap_or("bytes");
    let t = std::time::Instant::now();
    let (r, peak): (Result<Bvh, LoadError>, usize);
    macro_rules! go {
        ($e:expr) => {{
            let m = alloc::mark();
            r = $e;
            peak = alloc::peak_since(m);
        }};
    }
    macro_rules! text {
        () => {
            match std::str::from_utf8(&data) {
                Ok(s) => s,
                Err(_) => return (json!({"none": true}), None),
            }
        };
    }
    match entry {
        "bytes" => go!(bvh_anim::from_bytes(&data)),
        "bytes_m" => go!(Bvh::from_bytes(&data[..])),
        "bytes_str" => go!(bvh_anim::from_bytes(text!())),
        "str" => go!(bvh_anim::from_str(text!())),
        "str_m" => go!(<Bvh as FromStr>::from_str(text!())),
        "parse" => go!(text!().parse::<Bvh>()),
        "try_str" => go!(Bvh::try_from(text!())),
        "try_bstr" => {
            let b: &BStr = data[..].into();
            go!(Bvh::try_from(b))
        }
        "try_bytes" => go!(Bvh::try_from(&data[..])),
        "slice" => go!(bvh_anim::from_reader(&data[..])),
        "cursor" => go!(Bvh::from_reader(std::io::Cursor::new(&data))),
        "reader" => {
            let mut sc = io_fakes::Script::new(data.clone(), op);
            go!(bvh_anim::from_reader(&mut sc))
        }
        "reader_m" => {
            let sc = io_fakes::Script::new(data.clone(), op);
            go!(Bvh::from_reader(sc))
        }
        "bufreader" => {
            let sc = io_fakes::Script::new(data.clone(), op);
            let cap = op["cap"].as_u64().unwrap_or(7) as usize;
            go!(Bvh::from_reader(BufReader::with_capacity(cap, sc)))
        }
        e => panic!("adapter: unknown entry {e}"),
    }
    let us = t.elapsed().as_micros() as u64;
    match r {
        Ok(mut b) => {
            let mut v = json!({"ok": true, "peak": peak, "len": data.len(), "us": us});
            if op["snap"] != false {
                v["snap"] = snap(&mut b);
            }
            (v, Some(b))
        }
        Err(e) => (
            json!({"ok": false, "peak": peak, "len": data.len(), "us": us, "err": err(e)}),
            None,
        ),
    }
}

fn options(o: &Value) -> WriteOptions {
    let indent = match &o["indent"] {
        Value::String(x) if x == "tabs" => Some(IndentStyle::Tabs),
        Value::String(x) if x == "none" => Some(IndentStyle::NoIndentation),
        Value::Number(x) => Some(IndentStyle::with_spaces(x.as_u64().unwrap() as usize)),
        _ => None,
    };
    let term = match o["term"].as_str() {
        Some("unix") => Some(LineTerminator::Unix),
        Some("windows") => Some(LineTerminator::Windows),
        Some("native") => Some(LineTerminator::native()),
        _ => None,
    };
    let p = |v: &Value| v.as_u64().map(|x| x as usize);
    let mut w = if o["default"] == true { WriteOptions::default() } else { WriteOptions::new() };
    if o["fields"] == true {
        // through the public fields
        if let Some(i) = indent {
            w.indent = i;
        }
        if let Some(t) = term {
            w.line_terminator = t;
        }
        w.offset_significant_figures = p(&o["off"]);
        w.frame_time_significant_figures = p(&o["ft"]);
        w.motion_values_significant_figures = p(&o["mo"]);
        return w;
    }
    // order in which the builder methods are called
    for k in o["order"].as_str().unwrap_or("itofm").chars() {
        w = match k {
            'i' => match &indent {
                Some(i) => w.with_indent(i.clone()),
                None => w,
            },
            't' => match &term {
                Some(t) => w.with_line_terminator(t.clone()),
                None => w,
            },
            'o' => w.with_offset_significant_figures(p(&o["off"])),
            'f' => w.with_frame_time_significant_figures(p(&o["ft"])),
            _ => w.with_motion_values_significant_figures(p(&o["mo"])),
        };
    }
    w
}

fn indent_style(v: &str) -> IndentStyle {
    match v {
        "tabs" => IndentStyle::Tabs,
        "none" => IndentStyle::NoIndentation,
        "default" => IndentStyle::default(),
        n => IndentStyle::with_spaces(n.parse().unwrap()),
    }
}

fn terminator(v: &str) -> LineTerminator {
    match v {
        "unix" => LineTerminator::Unix,
        "windows" => LineTerminator::Windows,
        "native" => LineTerminator::native(),
        _ => LineTerminator::default(),
    }
}

fn fields(w: &WriteOptions) -> Value {
    let p = |x: Option<usize>| x.map_or("any".to_string(), |n| n.to_string());
    json!({
        "indent": indent_name(&w.indent),
        "term": term_name(&w.line_terminator),
        "off": p(w.offset_significant_figures),
        "ft": p(w.frame_time_significant_figures),
        "mo": p(w.motion_values_significant_figures)})
}

fn indent_name(i: &IndentStyle) -> String {
    match i {
        IndentStyle::Tabs => "tabs".to_string(),
        IndentStyle::NoIndentation => "none".to_string(),
        IndentStyle::Spaces(n) => n.to_string(),
    }
}

fn term_name(t: &LineTerminator) -> &'static str {
    match t {
        LineTerminator::Unix => "unix",
        LineTerminator::Windows => "windows",
    }
}

fn set(w: WriteOptions, cmd: &Value) -> WriteOptions {
    let (way, field, v) = (s(&cmd[0]), s(&cmd[1]), s(&cmd[2]));
    let p: Option<usize> = v.parse().ok();
    let mut w = w;
    match (way, field) {
        ("field", "indent") => w.indent = indent_style(v),
        ("field", "term") => w.line_terminator = terminator(v),
        ("field", "off") => w.offset_significant_figures = p,
        ("field", "ft") => w.frame_time_significant_figures = p,
        ("field", "mo") => w.motion_values_significant_figures = p,
        (_, "indent") => w = w.with_indent(indent_style(v)),
        (_, "term") => w = w.with_line_terminator(terminator(v)),
        // the number itself, or an option of it
        ("plain", "off") if p.is_some() => w = w.with_offset_significant_figures(p.unwrap()),
        ("plain", "ft") if p.is_some() => w = w.with_frame_time_significant_figures(p.unwrap()),
        ("plain", "mo") if p.is_some() => w = w.with_motion_values_significant_figures(p.unwrap()),
        (_, "off") => w = w.with_offset_significant_figures(p),
        (_, "ft") => w = w.with_frame_time_significant_figures(p),
        _ => w = w.with_motion_values_significant_figures(p),
    }
    w
}

fn hash<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Options set step by step, read after every step, compared with others, and used.
fn set_options(op: &Value, b: &Bvh) -> Value {
    let mut all = vec![];
    let mut build = |script: &Value, default: bool| {
        let mut w = if default { WriteOptions::default() } else { WriteOptions::new() };
        let mut steps = vec![fields(&w)];
        for cmd in script.as_array().unwrap() {
            w = set(w, cmd);
            steps.push(fields(&w));
        }
        all.push(json!(steps));
        w
    };
    let w = build(&op["script"], false);
    let v = build(&op["twin"], true);
    let copy = w.clone();
    // values that nobody could write with
    let dry = op["dry"] == true;
    json!({"steps": all[0], "twin": all[1], "eq": w == v, "ne": w != v, "hash": hash(&w) == hash(&v),
        "copy": copy == w && hash(&copy) == hash(&w), "text": if dry { String::new() } else { latin(&w.write_to_string(b)) },
        "sametext": dry || w.write_to_string(b) == v.write_to_string(b), "after": fields(&w)})
}

/// What line terminators and indentations say about themselves.
fn terms(op: &Value) -> Value {
    let ts: Vec<Value> = op["terms"].as_array().unwrap().iter().map(|t| {
        let t = terminator(s(t));
        json!({"is": term_name(&t), "str": t.as_str(), "bytes": latin(t.as_bytes()), "esc": t.as_escaped_str(),
            "escbytes": latin(t.as_escaped_bytes()), "disp": t.to_string()})
    }).collect();
    let is: Vec<Value> = op["indents"].as_array().unwrap().iter().map(|i| json!({"is": indent_name(&indent_style(s(i)))})).collect();
    json!({"terms": ts, "indents": is})
}

fn write(op: &Value, b: &Bvh) -> Value {
    let o = &op["opts"];
    match op["via"].as_str().unwrap_or("string") {
        "string" => json!({"text": latin(&options(o).write_to_string(b))}),
        "to_string" => json!({"text": latin(&b.to_string())}),
        via => {
            let mut sink = io_fakes::Sink::new(op);
            let r = match via {
                "write_to" => b.write_to(&mut sink),
                _ => options(o).write(b, &mut sink),
            };
            let r = match r {
                Ok(()) => json!({"ok": true, "kind": "", "msg": ""}),
                Err(e) => {
                    let mut v = io_err(&e);
                    v["ok"] = json!(false);
                    v
                }
            };
            json!({"res": r, "got": latin(&sink.got), "log": sink.log})
        }
    }
}

struct Hint<I>(I, usize, Option<usize>);
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, self.2)
    }
}

fn opt(f: Option<Frame>) -> Value {
    // A missing frame is [], a frame is [values].
    f.map(|f| json!([fr(f.as_slice())])).unwrap_or(json!([]))
}

fn cursor(op: &Value, slots: &mut Slots, slot: &str) -> Value {
    let donor: Option<Bvh> = op["donor"].as_str().and_then(|d| slots.get(d).cloned());
    let b = match slots.get_mut(slot) {
        Some(b) => b,
        None => return json!({"none": true}),
    };
    let mut out = vec![];
    let mut c = b.frame_cursor();
    let script = op["script"].as_array().unwrap();
    let start = json!({"i": c.index(), "n": c.len(), "c": c.num_channels(),
        "pn": opt(c.peek_next()), "pp": opt(c.peek_prev())});
    for cmd in script {
        let mut r = json!({});
        match s(&cmd[0]) {
            "next" => drop(c.move_next()),
            "prev" => drop(c.move_prev()),
            "first" => drop(c.move_first()),
            "last" => drop(c.move_last()),
            "shrink" => c.shrink_to_fit(),
            "ins" => {
                let f = frame(&cmd[1]);
                let x = match cmd[2].as_str().unwrap_or("vec") {
                    "vec" => c.try_insert_frame(&f).map(|_| ()),
                    "slice" => c.try_insert_frame(&f[..]).map(|_| ()),
                    "box" => c.try_insert_frame(&f.into_boxed_slice()).map(|_| ()),
                    t => panic!("adapter: frame type {t}"),
                };
                if let Err(e) = x {
                    r["e"] = json!(e.to_string());
                }
            }
            "insd" => {
                // insert a frame borrowed from another Bvh
                let d = donor.as_ref().unwrap();
                if let Some(f) = d.frames().nth(n(&cmd[1])) {
                    if let Err(e) = c.try_insert_frame(&f) {
                        r["e"] = json!(e.to_string());
                    }
                }
            }
            "insm" => {
                let fs: Vec<Vec<f32>> = cmd[1].as_array().unwrap().iter().map(frame).collect();
                let k = fs.len();
                let x = match cmd[2].as_str().unwrap_or("exact") {
                    "exact" => c.try_insert_frames(fs.iter()).map(|_| ()),
                    "slices" => c.try_insert_frames(fs.iter().map(|f| &f[..])).map(|_| ()),
                    "zero" => c.try_insert_frames(Hint(fs.iter(), 0, None)).map(|_| ()),
                    "zero0" => c.try_insert_frames(Hint(fs.iter(), 0, Some(0))).map(|_| ()),
                    "more" => c.try_insert_frames(Hint(fs.iter(), k + 3, None)).map(|_| ()),
                    "less" => c.try_insert_frames(Hint(fs.iter(), k / 2, Some(k))).map(|_| ()),
                    "huge" => c
                        .try_insert_frames(Hint(fs.iter(), usize::MAX, Some(usize::MAX)))
                        .map(|_| ()),
                    h => panic!("adapter: hint {h}"),
                };
                if let Err(e) = x {
                    r["e"] = json!(e.to_string());
                }
            }
            "insmd" => {
                // insert all frames of another Bvh
                let d = donor.as_ref().unwrap();
                let fs: Vec<Frame> = d.frames().collect();
                if let Err(e) = c.try_insert_frames(fs.iter()) {
                    r["e"] = json!(e.to_string());
                }
            }
            "rm" => {
                if let Err(e) = c.remove_frame() {
                    r["e"] = json!(e.to_string());
                }
            }
            "rmall" => drop(c.remove_all_frames()),
            "surr" => {
                let (p, q) = c.surrounding_frames();
                r["r"] = json!([opt(p), opt(q)]);
            }
            "setn" | "setp" => {
                let f = if s(&cmd[0]) == "setn" { c.peek_next_mut() } else { c.peek_prev_mut() };
                match f {
                    None => r["r"] = json!("none"),
                    Some(mut f) => match f.try_set_motion(n(&cmd[1]), unbits(&cmd[2])) {
                        Ok(o) => r["r"] = json!(bits(o)),
                        Err(e) => r["e"] = json!(e.to_string()),
                    },
                }
            }
            // consuming operations end the script
            "into" | "from" => {
                let fs = if s(&cmd[0]) == "into" { c.into_frames() } else { Frames::from(c) };
                let len = fs.len();
                let v: Vec<Value> = fs.map(|f| fr(f.as_slice())).collect();
                out.push(json!({"frames": v, "n": len}));
                return json!({"start": start, "steps": out});
            }
            "intom" | "fromm" => {
                let fs = if s(&cmd[0]) == "intom" { c.into_frames_mut() } else { FramesMut::from(c) };
                let len = fs.len();
                let v: Vec<Value> = fs.map(|f| fr(f.as_slice())).collect();
                out.push(json!({"frames": v, "n": len}));
                return json!({"start": start, "steps": out});
            }
            x => panic!("adapter: cursor command {x}"),
        }
        r["i"] = json!(c.index());
        r["n"] = json!(c.len());
        r["c"] = json!(c.num_channels());
        if op["nopeek"] != true {
            r["pn"] = opt(c.peek_next());
            r["pp"] = opt(c.peek_prev());
        }
        if op["mutpeek"] == true {
            let a = c.peek_next_mut().map(|f| json!([fr(f.as_slice())])).unwrap_or(json!([]));
            let b = c.peek_prev_mut().map(|f| json!([fr(f.as_slice())])).unwrap_or(json!([]));
            r["mn"] = a;
            r["mp"] = b;
        }
        out.push(r);
    }
    json!({"start": start, "steps": out})
}

trait Fr {
    fn vals(&mut self, cmd: &Value) -> Value;
}
impl Fr for Frame<'_> {
    fn vals(&mut self, _: &Value) -> Value {
        fr(self.as_slice())
    }
}
impl Fr for FrameMut<'_> {
    fn vals(&mut self, cmd: &Value) -> Value {
        if let Some(w) = cmd["set"].as_array() {
            for x in w {
                let (i, v) = (n(&x[0]), unbits(&x[1]));
                match x[2].as_str().unwrap_or("set") {
                    "set" => drop(self.try_set_motion(i, v)),
                    "idx" => self[i] = v,
                    "slice" => self.as_mut_slice()[i] = v,
                    "asmut" => AsMut::<[f32]>::as_mut(self)[i] = v,
                    "borrow" => BorrowMut::<[f32]>::borrow_mut(self)[i] = v,
                    x => panic!("adapter: {x}"),
                }
            }
        }
        fr(self.as_slice())
    }
}

fn iter_script<F: Fr, I>(mut it: I, script: &[Value]) -> Value
where
    I: DoubleEndedIterator<Item = F> + ExactSizeIterator,
{
    let mut out = vec![];
    for cmd in script {
        let k = || n(&cmd["k"]);
        let one = |f: Option<F>| f.map(|mut f| json!([f.vals(cmd)])).unwrap_or(json!([]));
        let mut r = match s(&cmd["c"]) {
            "n" => json!({"f": one(it.next())}),
            "b" => json!({"f": one(it.next_back())}),
            "nth" => json!({"f": one(it.nth(k()))}),
            "nthb" => json!({"f": one(it.nth_back(k()))}),
            "byref_take" => {
                json!({"f": it.by_ref().take(k()).map(|mut f| f.vals(cmd)).collect::<Vec<_>>()})
            }
            "find" => {
                let mut c = 0;
                let r = it.find(|_| {
                    c += 1;
                    c > k()
                });
                json!({"f": one(r)})
            }
            // consuming
            t => {
                let l = it.len();
                let mut c = |mut f: F| f.vals(cmd);
                let v: Vec<Value> = match t {
                    "count" => {
                        out.push(json!({"num": it.count(), "len": l}));
                        return Value::Array(out);
                    }
                    "last" => it.last().into_iter().map(c).collect(),
                    "rest" => it.map(c).collect(),
                    "rev" => it.rev().map(c).collect(),
                    "fold" => it.fold(vec![], |mut a, f| {
                        a.push(c(f));
                        a
                    }),
                    "rfold" => it.rfold(vec![], |mut a, f| {
                        a.push(c(f));
                        a
                    }),
                    "foreach" => {
                        let mut a = vec![];
                        it.for_each(|f| a.push(c(f)));
                        a
                    }
                    "skip" => it.skip(k()).map(c).collect(),
                    "step" => it.step_by(k()).map(c).collect(),
                    "take" => it.take(k()).map(c).collect(),
                    "zip" => it.zip(0..k()).map(|(f, _)| c(f)).collect(),
                    x => panic!("adapter: iter command {x}"),
                };
                out.push(json!({"f": v, "len": l}));
                return Value::Array(out);
            }
        };
        let h = it.size_hint();
        r["len"] = json!(it.len());
        r["lo"] = json!(h.0);
        r["hi"] = json!(h.1.map(|x| x as i64).unwrap_or(-1));
        out.push(r);
    }
    Value::Array(out)
}

fn iter(op: &Value, b: &mut Bvh) -> Value {
    let script = op["script"].as_array().unwrap();
    let skip = op["from"].as_u64();
    json!({"steps": match (op["mut"] == true, skip) {
        (false, None) => iter_script(b.frames(), script),
        (true, None) => iter_script(b.frames_mut(), script),
        (m, Some(k)) => {
            let mut c = b.frame_cursor();
            for _ in 0..k {
                c.move_next();
            }
            if m {
                iter_script(c.into_frames_mut(), script)
            } else {
                iter_script(c.into_frames(), script)
            }
        }
    }})
}

fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// Each command is applied to a freshly obtained frame, so that commands are independent.
fn access(op: &Value, slots: &mut Slots, slot: &str) -> Value {
    // channels used as indices may come from any slot
    let mut chans: HashMap<String, Vec<Vec<Channel>>> = HashMap::new();
    for (k, b) in slots.iter() {
        chans.insert(k.clone(), b.joints().map(|j| j.channels().to_vec()).collect());
    }
    let b = match slots.get_mut(slot) {
        Some(b) => b,
        None => return json!({"none": true}),
    };
    let mut out = vec![];
    for cmd in op["script"].as_array().unwrap() {
        let fi = n(&cmd["f"]);
        let via = cmd["via"].as_str().unwrap_or("m");
        let ch = cmd["ch"].as_array().map(|c| chans[s(&c[0])][n(&c[1])][n(&c[2])]);
        let i = cmd["i"].as_u64().map(|i| i as usize);
        let (lo, hi) = (cmd["a"].as_u64().map(|x| x as usize), cmd["b"].as_u64().map(|x| x as usize));
        let val = cmd["v"].as_str().map(|_| unbits(&cmd["v"]));
        macro_rules! each_index {
            // evaluates $body with $x bound to the index of this command
            ($x:ident => $body:expr) => {
                match (ch, cmd["byref"] == true) {
                    (Some(c), true) => {
                        let $x = &c;
                        $body
                    }
                    (Some(c), false) => {
                        let $x = c;
                        $body
                    }
                    _ => {
                        let $x = i.unwrap();
                        $body
                    }
                }
            };
        }
        macro_rules! each_range {
            ($x:ident => $body:expr) => {
                match s(&cmd["r"]) {
                    "r" => {
                        let $x = lo.unwrap()..hi.unwrap();
                        $body
                    }
                    "ri" => {
                        let $x = lo.unwrap()..=hi.unwrap();
                        $body
                    }
                    "rf" => {
                        let $x = lo.unwrap()..;
                        $body
                    }
                    "rt" => {
                        let $x = ..hi.unwrap();
                        $body
                    }
                    "rti" => {
                        let $x = ..=hi.unwrap();
                        $body
                    }
                    "full" => {
                        let $x = ..;
                        $body
                    }
                    x => panic!("adapter: range {x}"),
                }
            };
        }
        // results: {"v": [..]} values found, {"none": true} nothing, {"oob": true} indexing panicked
        let found = |v: Option<Value>| match v {
            Some(v) => json!({"r": "some", "v": v}),
            None => json!({"r": "none", "v": []}),
        };
        let r = if via == "s" {
            let f = match b.frames().nth(fi) {
                Some(f) => f,
                None => {
                    out.push(json!({"r": "noframe", "v": []}));
                    continue;
                }
            };
            match s(&cmd["c"]) {
                "get" => found(each_index!(x => f.get(x).map(|v| fr(&[*v])))),
                "idx" => found(each_index!(x => caught(|| fr(&[f[x]])))),
                "getr" => found(each_range!(x => f.get(x).map(|v| fr(v)))),
                "idxr" => found(each_range!(x => caught(|| fr(&f[x])))),
                "slice" => found(Some(fr(f.as_slice()))),
                "asref" => found(Some(fr(f.as_ref()))),
                "borrow" => found(Some(fr(Borrow::<[f32]>::borrow(&f)))),
                "copy" => {
                    let g = f;
                    let same = g.as_slice() == f.as_slice();
                    found(if (g == f) == same { Some(fr(g.as_slice())) } else { None })
                }
                "len" => json!({"r": "len", "v": [], "n": f.len(), "e": f.is_empty()}),
                x => panic!("adapter: access command {x}"),
            }
        } else {
            let mut f = match b.frames_mut().nth(fi) {
                Some(f) => f,
                None => {
                    out.push(json!({"r": "noframe", "v": []}));
                    continue;
                }
            };
            match s(&cmd["c"]) {
                "get" => found(each_index!(x => f.get(x).map(|v| fr(&[*v])))),
                "idx" => found(each_index!(x => caught(|| fr(&[f[x]])))),
                "getr" => found(each_range!(x => f.get(x).map(|v| fr(v)))),
                "idxr" => found(each_range!(x => caught(|| fr(&f[x])))),
                "slice" => found(Some(fr(f.as_slice()))),
                "asref" => found(Some(fr(f.as_ref()))),
                "borrow" => found(Some(fr(Borrow::<[f32]>::borrow(&f)))),
                "conv" => found(Some(fr(Frame::from(f).as_slice()))),
                "convref" => found(Some(fr(Frame::from(&f).as_slice()))),
                "len" => json!({"r": "len", "v": [], "n": f.len(), "e": f.is_empty()}),
                "set" => match each_index!(x => f.try_set_motion(x, val.unwrap())) {
                    Ok(o) => json!({"r": "old", "v": fr(&[o])}),
                    Err(e) => {
                        let k = match &e {
                            bvh_anim::errors::SetMotionError::BadChannel(i) => json!(["BadChannel", i]),
                            bvh_anim::errors::SetMotionError::BadFrame(i) => json!(["BadFrame", i]),
                            #[allow(unreachable_patterns)]
                            _ => json!(["Other", 0]),
                        };
                        json!({"r": "err", "v": [], "e": e.to_string(), "k": k})
                    }
                },
                "setm" => found(each_index!(x => f.get_mut(x).map(|v| {
                    let o = *v;
                    *v = val.unwrap();
                    fr(&[o])
                }))),
                "setrm" => found(each_range!(x => f.get_mut(x).map(|v| {
                    let o = fr(v);
                    v.iter_mut().for_each(|y| *y = val.unwrap());
                    o
                }))),
                "setidx" => found(each_index!(x => caught(|| {
                    let o = f[x];
                    f[x] = val.unwrap();
                    fr(&[o])
                }))),
                "setridx" => found(each_range!(x => caught(|| {
                    let y = &mut f[x];
                    let o = fr(y);
                    y.iter_mut().for_each(|y| *y = val.unwrap());
                    o
                }))),
                "setslice" => {
                    let i = i.unwrap();
                    let y: &mut [f32] = match cmd["w"].as_str().unwrap_or("slice") {
                        "slice" => f.as_mut_slice(),
                        "asmut" => f.as_mut(),
                        _ => f.borrow_mut(),
                    };
                    found(y.get_mut(i).map(|v| {
                        let o = *v;
                        *v = val.unwrap();
                        fr(&[o])
                    }))
                }
                x => panic!("adapter: access command {x}"),
            }
        };
        out.push(r);
    }
    json!({ "steps": out })
}

fn find(op: &Value, b: &Bvh) -> Value {
    let mut out = vec![];
    // `of`: iterate over the children of the joint with this index; otherwise over all joints
    let owner = op["of"].as_u64().and_then(|i| b.joints().nth(i as usize));
    let mut it = match owner {
        Some(ref j) => j.children(),
        None => b.joints(),
    };
    for cmd in op["script"].as_array().unwrap() {
        let r = match s(&cmd[0]) {
            "find" => {
                let name = unlatin(s(&cmd[1]));
                match (cmd[2].as_str().unwrap_or("bytes"), std::str::from_utf8(&name)) {
                    ("str", Ok(t)) => it.find_by_name(t),
                    ("slice", _) => it.find_by_name(&name[..]),
                    _ => it.find_by_name(&name),
                }
            }
            "next" => it.next(),
            "nth" => it.nth(n(&cmd[1])),
            x => panic!("adapter: find command {x}"),
        };
        out.push(r.map(|j| json!([j.index(), latin(j.name())])).unwrap_or(json!([])));
    }
    let rest: Vec<usize> = it.take(200_000).map(|j| j.index()).collect();
    json!({"steps": out, "rest": rest})
}

/// Looks at some joints and values of a Bvh that is too big to be shown as a whole.
fn probe(op: &Value, b: &mut Bvh) -> Value {
    let nm = b.joints_mut().take(1_000_000).count();
    let b = &*b;
    let last = b.frames().last();
    let list = |k: &str| op[k].as_array().cloned().unwrap_or_default();
    let joints: Vec<Value> = list("joints")
        .iter()
        .map(|i| match b.joints().nth(n(i)) {
            None => json!({}),
            Some(j) => {
                let ch: Vec<Value> = j
                    .channels()
                    .iter()
                    .take(200)
                    .map(|c| json!([c.channel_type().as_str(), c.motion_index(), last.and_then(|f| f.get(c).map(|x| bits(*x)))]))
                    .collect();
                let kids: Vec<usize> = j.children().take(1_000_000).map(|k| k.index()).collect();
                let found = b.joints().find_by_name(j.name()).map(|k| k.index() as i64).unwrap_or(-1);
                json!({
                    "i": j.index(), "name": latin(j.name()), "off": off(j.offset()),
                    "es": j.end_site().map(off).unwrap_or(json!([])),
                    "par": j.parent_index().map(|p| p as i64).unwrap_or(-1),
                    "parj": j.parent().map(|p| p.index() as i64).unwrap_or(-1),
                    "nch": j.channels().len(), "ch": ch, "found": found, "nk": kids.len(),
                    "k": kids.iter().take(2).chain(kids.last()).collect::<Vec<_>>(),
                })
            }
        })
        .collect();
    // columns of all channels, joint by joint
    let mut column = 0;
    let mut odd = -1i64;
    for c in b.joints().flat_map(|j| j.channels().to_vec()) {
        if c.motion_index() != column && odd < 0 {
            odd = column as i64;
        }
        column += 1;
    }
    let vals: Vec<Value> = list("vals")
        .iter()
        .map(|v| {
            let f = b.frames().nth(n(&v[0]));
            json!(f.and_then(|f| f.get(n(&v[1])).map(|x| bits(*x))).unwrap_or_default())
        })
        .collect();
    json!({"nj": b.joints().count(), "nm": nm, "nc": b.num_channels(), "nf": b.frames().len(), "columns": column, "odd": odd,
           "ft": format!("{}", b.frame_time().as_nanos()), "joints": joints, "vals": vals})
}

fn chan(op: &Value) -> Value {
    let b = unlatin(s(&op["bytes"]));
    let text = std::str::from_utf8(&b);
    let r: Result<ChannelType, ParseChannelError> = match (s(&op["via"]), text) {
        ("from_bytes", _) => ChannelType::from_bytes(&b),
        ("from_slice", _) => ChannelType::from_bytes(&b[..]),
        ("try_bytes", _) => ChannelType::try_from(&b[..]),
        ("try_str", Ok(t)) => ChannelType::try_from(t),
        ("from_str", Ok(t)) => ChannelType::from_str(t),
        ("parse", Ok(t)) => t.parse(),
        ("bytes_str", Ok(t)) => ChannelType::from_bytes(t),
        // as a channel of a file
        ("load", _) => {
            let mut f = b"HIERARCHY\nROOT a\n{\nOFFSET 0 0 0\nCHANNELS 1 ".to_vec();
            f.extend_from_slice(&b);
            f.extend_from_slice(b"\n}\nMOTION\nFrames: 0\nFrame Time: 1\n");
            match bvh_anim::from_bytes(&f[..]) {
                Ok(bvh) => {
                    let t: Vec<ChannelType> = bvh.joints().flat_map(|j| j.channels().iter().map(|c| c.channel_type()).collect::<Vec<_>>()).collect();
                    match t[..] {
                        [t] => Ok(t),
                        _ => return json!({"ok": false, "disp": "", "bad": format!("{} channels", t.len())}),
                    }
                }
                Err(e) => match e.into_kind() {
                    bvh_anim::errors::LoadErrorKind::Joints(bvh_anim::errors::LoadJointsError::ParseChannelError { error, .. }) => Err(error),
                    k => return json!({"ok": false, "disp": "", "bad": format!("{:?}", k)}),
                },
            }
        }
        _ => return json!({"none": true}),
    };
    match r {
        Ok(t) => {
            let variant = match t {
                ChannelType::PositionX => "Xposition",
                ChannelType::PositionY => "Yposition",
                ChannelType::PositionZ => "Zposition",
                ChannelType::RotationX => "Xrotation",
                ChannelType::RotationY => "Yrotation",
                ChannelType::RotationZ => "Zrotation",
                #[allow(unreachable_patterns)]
                _ => "?",
            };
            let axis = match t.axis() {
                bvh_anim::Axis::X => "X",
                bvh_anim::Axis::Y => "Y",
                bvh_anim::Axis::Z => "Z",
                #[allow(unreachable_patterns)]
                _ => "?",
            };
            // However narrow the field, the whole name is printed.
            let plain = t.to_string();
            let printed = (0..=plain.len())
                .flat_map(|w| vec![format!("{:w$}", t), format!("{:>w$}", t), format!("{:^1$.20}", t, w), format!("{:#w$}", t)])
                .find(|x| *x != plain)
                .unwrap_or(plain);
            json!({
                "ok": true,
                "variant": variant,
                "str": t.as_str(),
                "disp": printed,
                "rot": t.is_rotation(),
                "pos": t.is_position(),
                "axis": axis,
                "vec": off(&t.axis().vector()),
                "again": [ChannelType::from_bytes(&printed).ok() == Some(t), printed.parse().ok() == Some(t),
                          ChannelType::try_from(t.as_str()).ok() == Some(t), ChannelType::try_from(t.as_str().as_bytes()).ok() == Some(t)],
                "bad": "",
            })
        }
        Err(e) => {
            let d = e.to_string();
            json!({"ok": false, "disp": d, "bad": latin(&e.into_inner())})
        }
    }
}
