//! Reads the SQL texts found in the service's store and renders their meaning as spec functions.
#[derive(Debug, Clone)]
pub enum Opnd {
    Param(usize),
    Int(i64),
}
#[derive(Debug, Clone)]
pub struct Atom {
    pub col: String,
    pub op: String, // = < <= > >= <>
    pub rhs: Opnd,
}
#[derive(Debug, Clone)]
pub enum Sql {
    Create { table: String, cols: Vec<String>, pk: Vec<String> },
    Select { table: String, cols: Vec<String>, cond: Vec<Atom>, np: usize },
    Insert { table: String, vals: Vec<Opnd>, cols: Option<Vec<String>>, np: usize },
    Delete { table: String, cond: Vec<Atom>, np: usize },
    Unknown(String),
}

fn toks(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    let ch: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < ch.len() {
        let c = ch[i];
        if c.is_alphanumeric() || c == '_' || c == '.' {
            cur.push(c);
        } else {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            if !c.is_whitespace() {
                let two: String = ch[i..(i + 2).min(ch.len())].iter().collect();
                if ["<=", ">=", "<>", "!=", "=="].contains(&two.as_str()) {
                    out.push(two);
                    i += 1;
                } else {
                    out.push(c.to_string());
                }
            }
        }
        i += 1;
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

pub fn parse(s: &str) -> Sql {
    p(s).unwrap_or(Sql::Unknown(s.to_string()))
}

struct C {
    t: Vec<String>,
    i: usize,
    np: usize,
}
impl C {
    fn kw(&mut self, k: &str) -> bool {
        if self.i < self.t.len() && self.t[self.i].eq_ignore_ascii_case(k) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn id(&mut self) -> Option<String> {
        let x = self.t.get(self.i)?.clone();
        if !x.chars().next()?.is_alphabetic() && !x.starts_with('_') {
            return None;
        }
        self.i += 1;
        Some(x.to_lowercase())
    }
    fn opnd(&mut self) -> Option<Opnd> {
        if self.kw("?") {
            let mut n = self.np;
            // ?N
            if let Some(x) = self.t.get(self.i) {
                if let Ok(k) = x.parse::<usize>() {
                    n = k - 1;
                    self.i += 1;
                }
            }
            self.np = self.np.max(n + 1);
            return Some(Opnd::Param(n));
        }
        let neg = self.kw("-");
        let x = self.t.get(self.i)?.parse::<i64>().ok()?;
        self.i += 1;
        Some(Opnd::Int(if neg { -x } else { x }))
    }
    fn cond(&mut self) -> Option<Vec<Atom>> {
        let mut v = vec![];
        loop {
            let col = self.id()?;
            if self.kw("between") {
                let a = self.opnd()?;
                if !self.kw("and") {
                    return None;
                }
                let b = self.opnd()?;
                v.push(Atom { col: col.clone(), op: ">=".into(), rhs: a });
                v.push(Atom { col, op: "<=".into(), rhs: b });
            } else {
                let mut op = self.t.get(self.i)?.clone();
                self.i += 1;
                if op == "==" {
                    op = "=".into()
                }
                if op == "!=" {
                    op = "<>".into()
                }
                if !["=", "<", "<=", ">", ">=", "<>"].contains(&op.as_str()) {
                    return None;
                }
                let rhs = self.opnd()?;
                v.push(Atom { col, op, rhs });
            }
            if !self.kw("and") {
                break;
            }
        }
        Some(v)
    }
    fn end(&mut self) -> bool {
        self.kw(";");
        self.i == self.t.len()
    }
}

fn p(s: &str) -> Option<Sql> {
    let mut c = C { t: toks(s), i: 0, np: 0 };
    if c.kw("create") {
        if !c.kw("table") {
            return None;
        }
        if c.kw("if") {
            c.kw("not");
            c.kw("exists");
        }
        let table = c.id()?;
        if !c.kw("(") {
            return None;
        }
        let mut cols = vec![];
        let mut pk = vec![];
        loop {
            if c.kw("primary") {
                if !c.kw("key") || !c.kw("(") {
                    return None;
                }
                loop {
                    pk.push(c.id()?);
                    if c.kw(")") {
                        break;
                    }
                    if !c.kw(",") {
                        return None;
                    }
                }
            } else {
                let col = c.id()?;
                let _ty = c.id()?;
                if c.kw("primary") {
                    if !c.kw("key") {
                        return None;
                    }
                    pk.push(col.clone());
                }
                if c.kw("not") {
                    c.kw("null");
                }
                cols.push(col);
            }
            if c.kw(")") {
                break;
            }
            if !c.kw(",") {
                return None;
            }
        }
        return c.end().then_some(Sql::Create { table, cols, pk });
    }
    if c.kw("select") {
        let mut cols = vec![];
        loop {
            if c.kw("*") {
                cols.push("*".into());
            } else {
                cols.push(c.id()?);
            }
            if !c.kw(",") {
                break;
            }
        }
        if !c.kw("from") {
            return None;
        }
        let table = c.id()?;
        let cond = if c.kw("where") { c.cond()? } else { vec![] };
        let np = c.np;
        return c.end().then_some(Sql::Select { table, cols, cond, np });
    }
    if c.kw("insert") || c.kw("replace") {
        if c.kw("or") && !c.kw("replace") {
            return None;
        }
        if !c.kw("into") {
            return None;
        }
        // plain INSERT (without OR REPLACE) is not in the fragment
        let low: Vec<String> = c.t.iter().map(|x| x.to_lowercase()).collect();
        if !low.contains(&"replace".to_string()) {
            return None;
        }
        let table = c.id()?;
        let cols = if c.kw("(") {
            let mut v = vec![];
            loop {
                v.push(c.id()?);
                if c.kw(")") {
                    break;
                }
                if !c.kw(",") {
                    return None;
                }
            }
            Some(v)
        } else {
            None
        };
        if !c.kw("values") || !c.kw("(") {
            return None;
        }
        let mut vals = vec![];
        loop {
            vals.push(c.opnd()?);
            if c.kw(")") {
                break;
            }
            if !c.kw(",") {
                return None;
            }
        }
        let np = c.np;
        return c.end().then_some(Sql::Insert { table, vals, cols, np });
    }
    if c.kw("delete") {
        if !c.kw("from") {
            return None;
        }
        let table = c.id()?;
        let cond = if c.kw("where") { c.cond()? } else { vec![] };
        let np = c.np;
        return c.end().then_some(Sql::Delete { table, cond, np });
    }
    None
}

pub struct Schema {
    pub tables: Vec<(String, Vec<String>, Vec<String>)>,
}

/// renders module `sqlgen`; returns text and the ids of statements outside the fragment
pub fn render(sqls: &[String]) -> (String, Vec<usize>) {
    let parsed: Vec<Sql> = sqls.iter().map(|s| parse(s)).collect();
    let mut sc = Schema { tables: vec![] };
    for q in &parsed {
        if let Sql::Create { table, cols, pk } = q {
            sc.tables.push((table.clone(), cols.clone(), pk.clone()));
        }
    }
    let tid = |t: &str| -> Option<usize> {
        match t {
            "trust_relations" => Some(0),
            "roots" => Some(1),
            _ => None,
        }
    };
    let cidx = |t: &str, c: &str| -> Option<usize> {
        sc.tables.iter().find(|x| x.0 == t).and_then(|x| x.1.iter().position(|y| y == c))
    };
    let mut bad = vec![];
    let mut kind = String::new();
    let mut table = String::new();
    let mut np = String::new();
    let mut wh = String::new();
    let mut proj = String::new();
    let mut ins = String::new();
    let opnd = |o: &Opnd| match o {
        Opnd::Param(n) => format!("p[{n}]"),
        Opnd::Int(i) => format!("V::I({i})"),
    };
    for (i, q) in parsed.iter().enumerate() {
        let mut one = || -> Option<()> {
            let cond_s = |t: &str, cond: &Vec<Atom>| -> Option<String> {
                if cond.is_empty() {
                    return Some("true".into());
                }
                let mut v = vec![];
                for a in cond {
                    let c = cidx(t, &a.col)?;
                    let r = opnd(&a.rhs);
                    v.push(match a.op.as_str() {
                        "=" => format!("v_eq(row[{c}], {r})"),
                        "<>" => format!("v_ne(row[{c}], {r})"),
                        "<" => format!("v_lt(row[{c}], {r})"),
                        ">" => format!("v_lt({r}, row[{c}])"),
                        "<=" => format!("v_le(row[{c}], {r})"),
                        ">=" => format!("v_le({r}, row[{c}])"),
                        _ => return None,
                    });
                }
                Some(v.join(" && "))
            };
            match q {
                Sql::Create { .. } => {
                    kind += &format!("if id == {i} {{ 1int }} else ");
                }
                Sql::Select { table: t, cols, cond, np: n } => {
                    let ti = tid(t)?;
                    let w = cond_s(t, cond)?;
                    let ncols = sc.tables.iter().find(|x| &x.0 == t)?.1.len();
                    let mut pv = vec![];
                    for c in cols {
                        if c == "*" {
                            for k in 0..ncols {
                                pv.push(format!("row[{k}]"));
                            }
                        } else {
                            pv.push(format!("row[{}]", cidx(t, c)?));
                        }
                    }
                    kind += &format!("if id == {i} {{ 2int }} else ");
                    table += &format!("if id == {i} {{ {ti}int }} else ");
                    np += &format!("if id == {i} {{ {n}int }} else ");
                    wh += &format!("if id == {i} {{ {w} }} else ");
                    proj += &format!("if id == {i} {{ seq![{}] }} else ", pv.join(", "));
                }
                Sql::Insert { table: t, vals, cols, np: n } => {
                    let ti = tid(t)?;
                    let all = sc.tables.iter().find(|x| &x.0 == t)?.1.clone();
                    let order = cols.clone().unwrap_or(all.clone());
                    if order.len() != vals.len() || all.len() != vals.len() {
                        return None;
                    }
                    let mut rv = vec![];
                    for c in &all {
                        let k = order.iter().position(|x| x == c)?;
                        rv.push(opnd(&vals[k]));
                    }
                    kind += &format!("if id == {i} {{ 3int }} else ");
                    table += &format!("if id == {i} {{ {ti}int }} else ");
                    np += &format!("if id == {i} {{ {n}int }} else ");
                    ins += &format!("if id == {i} {{ seq![{}] }} else ", rv.join(", "));
                }
                Sql::Delete { table: t, cond, np: n } => {
                    let ti = tid(t)?;
                    let w = cond_s(t, cond)?;
                    kind += &format!("if id == {i} {{ 4int }} else ");
                    table += &format!("if id == {i} {{ {ti}int }} else ");
                    np += &format!("if id == {i} {{ {n}int }} else ");
                    wh += &format!("if id == {i} {{ {w} }} else ");
                }
                Sql::Unknown(_) => return None,
            }
            Some(())
        };
        if one().is_none() {
            bad.push(i);
        }
    }
    let pk = |t: &str| -> String {
        sc.tables
            .iter()
            .find(|x| x.0 == t)
            .map(|x| x.2.iter().map(|c| format!("{}int", x.1.iter().position(|y| y == c).unwrap_or(99))).collect::<Vec<_>>().join(", "))
            .unwrap_or_default()
    };
    let nc = |t: &str| sc.tables.iter().find(|x| x.0 == t).map(|x| x.1.len()).unwrap_or(0);
    let text = format!(
        "pub mod sqlgen {{ use vstd::prelude::*; use crate::ext::marine_sqlite_connector::*; verus! {{
// generated from the SQL texts of service/src/storage_impl.rs
pub open spec fn sql_kind(id: int) -> int {{ {kind} {{ 0int }} }}
pub open spec fn sql_table(id: int) -> int {{ {table} {{ 9int }} }}
pub open spec fn sql_np(id: int) -> int {{ {np} {{ 0int }} }}
pub open spec fn sql_where(id: int, row: Seq<V>, p: Seq<V>) -> bool {{ {wh} {{ false }} }}
pub open spec fn sql_proj(id: int, row: Seq<V>) -> Seq<V> {{ {proj} {{ Seq::empty() }} }}
pub open spec fn sql_ins(id: int, p: Seq<V>) -> Seq<V> {{ {ins} {{ Seq::empty() }} }}
pub open spec fn schema_pk(t: int) -> Seq<int> {{ if t == 0 {{ seq![{}] }} else {{ seq![{}] }} }}
pub open spec fn schema_ncols(t: int) -> int {{ if t == 0 {{ {} }} else {{ {} }} }}
}} }}\n",
        pk("trust_relations"),
        pk("roots"),
        nc("trust_relations"),
        nc("roots"),
    );
    (text, bad)
}
