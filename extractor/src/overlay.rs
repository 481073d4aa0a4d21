//! Contract overlay: text files with the contracts, invariants and proof hints for the
//! functions of /repo.  Nothing in it is executable code of the project.
use std::collections::BTreeMap;

#[derive(Default, Debug, Clone)]
pub struct LoopOv {
    pub invariant: String,
    pub decreases: String,
    pub lstart: String,
    pub lend: String,
    pub before: String,
    pub after: String,
}

#[derive(Default, Debug, Clone)]
pub struct FnOv {
    pub path: String,
    pub params: Vec<String>,
    pub ret: String,
    pub props: Vec<String>,
    pub requires: String,
    pub ensures: String,
    pub roles: Vec<(String, String)>, // name, matcher
    pub loops: BTreeMap<usize, LoopOv>,
    pub nloops: Option<usize>,
    pub start: String,
    pub tail: String,
    pub at: Vec<(String, bool, String)>, // regex-ish matcher, after?, text
    pub attrs: String,
    pub trusted: String,
    pub fromspec: String,
    pub tryrel: String,
    pub lift: String,
    pub collect: BTreeMap<usize, String>,
    pub used: bool,
}

#[derive(Default, Debug)]
pub struct Overlay {
    pub fns: BTreeMap<String, FnOv>,
    pub items: BTreeMap<String, String>, // trait/impl/mod key -> raw text
    pub drops: Vec<String>,
}

pub fn parse(text: &str, ov: &mut Overlay) {
    #[derive(Clone)]
    enum Tgt {
        None,
        Requires,
        Ensures,
        Inv(usize),
        Dec(usize),
        LStart(usize),
        LEnd(usize),
        Before(usize),
        After(usize),
        Start,
        Tail,
        At,
        Items(String),
        Attrs,
    }
    let mut cur: Option<FnOv> = None;
    let mut tgt = Tgt::None;
    let mut lp = 0usize;
    fn flush(cur: &mut Option<FnOv>, ov: &mut Overlay) {
        if let Some(f) = cur.take() {
            if ov.fns.contains_key(&f.path) {
                panic!("overlay: duplicate @fn {}", f.path);
            }
            ov.fns.insert(f.path.clone(), f);
        }
    }
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(rest) = t.strip_prefix('@') {
            let (dir, arg) = match rest.find(char::is_whitespace) {
                Some(i) => (&rest[..i], rest[i..].trim()),
                None => (rest, ""),
            };
            match dir {
                "fn" => {
                    flush(&mut cur, ov);
                    let mut f = FnOv::default();
                    // PATH(params) -> r ; path may contain <> and spaces-free
                    let open = arg.rfind('(').expect("overlay: @fn needs (params)");
                    let close = arg.rfind(')').unwrap();
                    f.path = arg[..open].trim().to_string();
                    f.params = arg[open + 1..close]
                        .split(',')
                        .map(|s| s.trim().to_string())
                        .filter(|s| !s.is_empty())
                        .collect();
                    f.ret = arg[close + 1..].trim().trim_start_matches("->").trim().to_string();
                    if f.ret.is_empty() {
                        f.ret = "r".into();
                    }
                    cur = Some(f);
                    tgt = Tgt::None;
                }
                "items" => {
                    flush(&mut cur, ov);
                    ov.items.entry(arg.to_string()).or_default();
                    tgt = Tgt::Items(arg.to_string());
                }
                "drop" => ov.drops.push(arg.to_string()),
                "endfn" => {
                    flush(&mut cur, ov);
                    tgt = Tgt::None
                }
                _ => {
                    let f = cur.as_mut().unwrap_or_else(|| panic!("overlay: @{dir} outside @fn: {line}"));
                    match dir {
                        "props" => f.props = arg.split_whitespace().map(|s| s.to_string()).collect(),
                        "requires" => {
                            tgt = Tgt::Requires;
                            f.requires.push_str(arg);
                            f.requires.push('\n');
                        }
                        "ensures" => {
                            tgt = Tgt::Ensures;
                            f.ensures.push_str(arg);
                            f.ensures.push('\n');
                        }
                        "role" => {
                            let (n, m) = arg.split_once('=').expect("@role name = matcher");
                            f.roles.push((n.trim().into(), m.trim().into()));
                        }
                        "loop" => {
                            lp = arg.parse().expect("@loop N");
                            f.loops.entry(lp).or_default();
                            tgt = Tgt::None;
                        }
                        "nloops" => f.nloops = Some(arg.parse().unwrap()),
                        "invariant" => {
                            tgt = Tgt::Inv(lp);
                            let l = f.loops.entry(lp).or_default();
                            l.invariant.push_str(arg);
                            l.invariant.push('\n');
                        }
                        "decreases" => {
                            tgt = Tgt::Dec(lp);
                            let l = f.loops.entry(lp).or_default();
                            l.decreases.push_str(arg);
                        }
                        "lstart" => tgt = Tgt::LStart(lp),
                        "lend" => tgt = Tgt::LEnd(lp),
                        "before" => tgt = Tgt::Before(lp),
                        "after" => tgt = Tgt::After(lp),
                        "start" => tgt = Tgt::Start,
                        "tail" => tgt = Tgt::Tail,
                        "at" => {
                            let (w, m) = arg.split_once(char::is_whitespace).expect("@at after|before MATCH");
                            f.at.push((m.trim().to_string(), w == "after", String::new()));
                            tgt = Tgt::At;
                        }
                        "attr" => {
                            tgt = Tgt::Attrs;
                            f.attrs.push_str(arg);
                            f.attrs.push('\n');
                        }
                        "trusted" => {
                            f.trusted = if arg.is_empty() { "trusted".into() } else { arg.into() };
                            tgt = Tgt::None
                        }
                        "fromspec" => f.fromspec = arg.to_string(),
                        "tryrel" => f.tryrel = arg.to_string(),
                        "lift" => f.lift = arg.to_string(),
                        "collect" => {
                            let (n, k) = arg.split_once(' ').unwrap();
                            f.collect.insert(n.parse().unwrap(), k.trim().to_string());
                        }
                        _ => panic!("overlay: unknown directive @{dir}"),
                    }
                }
            }
            continue;
        }
        if t.starts_with("##") {
            continue;
        }
        let mut add = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match &tgt {
            Tgt::None => {
                if !t.is_empty() {
                    panic!("overlay: stray text {line}");
                }
            }
            Tgt::Items(k) => add(ov.items.get_mut(k).unwrap()),
            other => {
                let f = cur.as_mut().unwrap();
                match other {
                    Tgt::Requires => add(&mut f.requires),
                    Tgt::Ensures => add(&mut f.ensures),
                    Tgt::Inv(n) => add(&mut f.loops.get_mut(n).unwrap().invariant),
                    Tgt::Dec(n) => add(&mut f.loops.get_mut(n).unwrap().decreases),
                    Tgt::LStart(n) => add(&mut f.loops.get_mut(n).unwrap().lstart),
                    Tgt::LEnd(n) => add(&mut f.loops.get_mut(n).unwrap().lend),
                    Tgt::Before(n) => add(&mut f.loops.get_mut(n).unwrap().before),
                    Tgt::After(n) => add(&mut f.loops.get_mut(n).unwrap().after),
                    Tgt::Start => add(&mut f.start),
                    Tgt::Tail => add(&mut f.tail),
                    Tgt::At => add(&mut f.at.last_mut().unwrap().2),
                    Tgt::Attrs => add(&mut f.attrs),
                    _ => {}
                }
            }
        }
    }
    flush(&mut cur, ov);
}
