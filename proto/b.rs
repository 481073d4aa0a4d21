use vstd::prelude::*;
verus! {
fn t2(v: Vec<u64>) -> (r: Vec<u64>)
  ensures r.len() == v.len()
{
    v.into_iter().map(|x: u64| -> (y: u64) ensures y == x { x }).collect()
}
}
fn main(){}
