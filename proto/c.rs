use vstd::prelude::*;
use std::time::Duration;
verus! {
fn t2(v: Duration, w: Duration) -> (r: bool)
{
    let b = v < w;
    let c = v < w;
    assert(b == c);
    let d = Duration::from_secs(5);
    let e = d.as_secs();
    assert(e == 5);
    b
}
fn t5(v: Duration, w: Duration) -> (r: bool)
{
    if v < w { if w < v {assert(false);} }
    v.lt(&w)
}
}
fn main(){}
