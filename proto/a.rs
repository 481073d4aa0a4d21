use vstd::prelude::*;
verus! {
fn t1(v: &Vec<u64>) -> (r: bool)
  ensures r == exists|i: int| 0 <= i < v.len() && v@[i] == 5
{
    let r = v.iter().any(|x| -> (r: bool) ensures r == (*x == 5) { *x == 5 });
    r
}
fn t2(v: Vec<u64>) -> (r: Vec<u64>)
  ensures r.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> r@[i] == v@[i] / 2,
{
    v.into_iter().map(|x: u64| -> (y: u64) ensures y == x / 2 { x / 2 }).collect()
}
fn t3(v: Vec<u64>) -> (r: Vec<u64>)
  ensures r.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> r@[i] == v@[v.len() - 1 - i] / 2,
{
    v.into_iter().map(|x: u64| -> (y: u64) ensures y == x / 2 { x / 2 }).rev().collect()
}
}
fn main(){}
