//! Minimises a failing plan. Works on the JSON form: removes list elements, clears
//! options, lowers numbers, empties grid cells; a candidate counts if the same class of
//! violation is reported again.
use crate::plan::*;
use serde_json::Value;
use std::time::{Duration, Instant};

fn paths(v: &Value, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(cur.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                cur.push(i.to_string());
                paths(x, cur, out);
                cur.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                cur.push(k.clone());
                paths(x, cur, out);
                cur.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a Value, p: &[String]) -> Option<&'a Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get(k)?,
            _ => return None,
        };
    }
    Some(v)
}
fn at_mut<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(k)?,
            _ => return None,
        };
    }
    Some(v)
}

pub fn size(p: &Plan) -> usize {
    serde_json::to_string(p).unwrap().len()
}

pub fn shrink(plan: &Plan, class: &str, budget: Duration, fails: &mut dyn FnMut(&Plan) -> Option<Violation>) -> (Plan, Option<Violation>, u64) {
    let end = Instant::now() + budget;
    let mut best = serde_json::to_value(plan).unwrap();
    let mut best_v = None;
    let mut tried = 0;
    let mut attempt = |cand: &Value, best: &mut Value, best_v: &mut Option<Violation>, tried: &mut u64| -> bool {
        if Instant::now() > end {
            return false;
        }
        let p: Plan = match serde_json::from_value(cand.clone()) {
            Ok(p) => p,
            Err(_) => return false,
        };
        if !valid(&p) {
            return false;
        }
        // normalise
        let cand = serde_json::to_value(&p).unwrap();
        if cand == *best {
            return false;
        }
        *tried += 1;
        match fails(&p) {
            Some(v) if v.class == class => {
                *best = cand;
                *best_v = Some(v);
                true
            }
            _ => false,
        }
    };
    for _round in 0..6 {
        let before = best.clone();
        // lists, outermost first
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        ps.sort_by_key(|p| p.len());
        for p in &ps {
            if p.first().map_or(false, |k| k == "prop" || k == "seed" || k == "batch") {
                continue;
            }
            let n = match at(&best, p) {
                Some(Value::Array(a)) if a.len() != 81 || p.last().map_or(false, |l| l == "bytes" || l == "steps") => a.len(),
                _ => continue,
            };
            let mut chunk = n;
            while chunk >= 1 {
                let mut i = 0;
                loop {
                    let len = match at(&best, p) {
                        Some(Value::Array(a)) => a.len(),
                        _ => break,
                    };
                    if i >= len {
                        break;
                    }
                    let mut cand = best.clone();
                    if let Some(Value::Array(a)) = at_mut(&mut cand, p) {
                        let e = (i + chunk).min(a.len());
                        a.drain(i..e);
                    }
                    if !attempt(&cand, &mut best, &mut best_v, &mut tried) {
                        i += chunk;
                    }
                    if Instant::now() > end {
                        break;
                    }
                }
                chunk /= 2;
            }
        }
        // options to null, numbers down, grid cells to empty
        let mut ps = vec![];
        paths(&best, &mut vec![], &mut ps);
        for p in &ps {
            if p.is_empty() || p.len() == 1 && p[0] != "sched" {
                continue;
            }
            let v = match at(&best, p) {
                Some(v) => v.clone(),
                None => continue,
            };
            let mut put = |x: Value, best: &mut Value, best_v: &mut Option<Violation>, tried: &mut u64| -> bool {
                let mut cand = best.clone();
                match at_mut(&mut cand, p) {
                    Some(y) => *y = x,
                    None => return false,
                }
                attempt(&cand, best, best_v, tried)
            };
            match v {
                Value::Null => {}
                Value::Number(n) => {
                    if let Some(n) = n.as_u64() {
                        for x in [0, 1, n / 2, n.saturating_sub(1)] {
                            if x < n && put(x.into(), &mut best, &mut best_v, &mut tried) {
                                break;
                            }
                        }
                    }
                }
                Value::String(s) if s.len() == 81 => {
                    let mut chunk = 27;
                    while chunk >= 1 {
                        let mut i = 0;
                        while i < 81 {
                            let cur = match at(&best, p) {
                                Some(Value::String(s)) => s.clone(),
                                _ => break,
                            };
                            let e = (i + chunk).min(81);
                            if cur[i..e].bytes().any(|b| b != b'.') {
                                let new = format!("{}{}{}", &cur[..i], ".".repeat(e - i), &cur[e..]);
                                put(new.into(), &mut best, &mut best_v, &mut tried);
                            }
                            i = e;
                        }
                        chunk /= 3;
                    }
                }
                Value::Object(_) | Value::Array(_) => {
                    if p.last().map_or(false, |l| l.parse::<usize>().is_err()) {
                        put(Value::Null, &mut best, &mut best_v, &mut tried);
                    }
                }
                _ => {}
            }
        }
        if best == before || Instant::now() > end {
            break;
        }
    }
    (serde_json::from_value(best).unwrap(), best_v, tried)
}
