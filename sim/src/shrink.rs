//! Minimises a failing case: schedule, faults, steps, metadata, images.
use std::time::{Duration, Instant};

use serde_json::Value;

use crate::case::Case;
use crate::img;
use crate::sys::Switch;

/// Digits and hexadecimal detail do not distinguish violations.
pub fn class(what: &str) -> String {
    let mut o = String::new();
    let mut last = false;
    for c in what.chars() {
        if c.is_ascii_digit() { if !last { o.push('#'); } last = true; continue; }
        last = false;
        o.push(c);
        if o.chars().count() >= 90 { break; }
    }
    o
}

/// Which of the files are images their own parser accepts; a reduction must not change that.
fn sane(c: &Case) -> Vec<bool> {
    c.files.iter().map(|f| { let b = f.bytes(); img::parse(f.img.fmt(), &b).map(|p| p.issues.is_empty()).unwrap_or(false) }).collect()
}

pub struct Shrinker<'a> {
    /// class of the violation a case shows, if any
    pub eval: &'a mut dyn FnMut(&Case) -> Option<String>,
    pub save: &'a mut dyn FnMut(&Case),
    pub want: String,
    pub until: Instant,
    pub evals: u64,
    best: Case,
    sane: Vec<bool>,
}

impl<'a> Shrinker<'a> {
    pub fn new(c: &Case, want: String, budget: Duration, eval: &'a mut dyn FnMut(&Case) -> Option<String>, save: &'a mut dyn FnMut(&Case)) -> Shrinker<'a> {
        Shrinker { eval, save, want, until: Instant::now() + budget, evals: 0, best: c.clone(), sane: sane(c) }
    }
    fn late(&self) -> bool { Instant::now() >= self.until }
    fn attempt(&mut self, c: Case) -> bool {
        if c == self.best || self.late() { return false; }
        if c.files.len() != self.best.files.len() {
            // files may only go away at the end
            if c.files.len() > self.best.files.len() { return false; }
            self.sane.truncate(c.files.len());
        }
        let ok = std::panic::catch_unwind(|| sane(&c)).map(|s| s == self.sane).unwrap_or(false);
        if !ok && c.prop != "C10" { return false; }
        self.evals += 1;
        if (self.eval)(&c).as_deref() == Some(&self.want) { self.best = c; (self.save)(&self.best); return true; }
        false
    }

    /// Removes elements of a list, in halves, then quarters, …
    fn list<T: Clone>(&mut self, get: &dyn Fn(&Case) -> Vec<T>, put: &dyn Fn(&mut Case, Vec<T>)) {
        let mut n = get(&self.best).len();
        while n >= 1 && !self.late() {
            let mut i = 0;
            loop {
                let l = get(&self.best);
                if i >= l.len() { break; }
                let e = (i + n).min(l.len());
                let mut x = l[..i].to_vec(); x.extend_from_slice(&l[e..]);
                let mut c = self.best.clone(); put(&mut c, x);
                if !self.attempt(c) { i += n; }
                if self.late() { break; }
            }
            n /= 2;
        }
    }

    pub fn run(mut self, taken: &dyn Fn() -> (Vec<Switch>, Vec<(u64, Vec<crate::sys::Fault>)>)) -> (Case, u64) {
        // an explicit schedule instead of the seeded one
        if !self.best.threads.is_empty() && self.best.switches.is_none() {
            let c = self.best.clone();
            if (self.eval)(&c).as_deref() == Some(&self.want) { let mut d = c; d.switches = Some(taken().0); self.attempt(d); }
        }
        // explicit disturbances instead of seeded ones
        for t in 0..self.best.steps.len() {
            if self.best.steps[t].benign.is_none() { continue; }
            let mut d = self.best.clone(); d.steps[t].benign = None;
            if self.attempt(d) { continue; }
            let c = self.best.clone();
            if (self.eval)(&c).as_deref() != Some(&self.want) { break; }
            let seed = c.steps[t].benign.as_ref().unwrap().seed;
            if let Some((_, f)) = taken().1.into_iter().rev().find(|x| x.0 == seed) { let mut d = c; d.steps[t].benign = None; d.steps[t].faults = f; self.attempt(d); }
        }
        loop {
            let before = self.best.clone();
            for t in 0..self.best.threads.len() { self.list(&|c| c.threads[t].clone(), &|c, x| c.threads[t] = x); }
            if self.best.switches.is_some() { self.list(&|c| c.switches.clone().unwrap(), &|c, x| c.switches = Some(x)); }
            self.list(&|c| c.steps.clone(), &|c, x| c.steps = x);
            for t in 0..self.best.steps.len() { self.list(&|c| c.steps[t].faults.clone(), &|c, x| c.steps[t].faults = x); }
            for t in 0..self.best.files.len() { self.list(&|c| c.files[t].damage.clone(), &|c, x| c.files[t].damage = x); }
            while self.best.files.len() > 1 { let mut c = self.best.clone(); c.files.pop(); if !self.attempt(c) { break; } }
            self.generic();
            if self.best == before || self.late() { break; }
        }
        (self.best, self.evals)
    }

    /// Reductions of any number, string and list of the serialised case.
    fn generic(&mut self) {
        let mut at = 0usize;
        while !self.late() {
            let v = serde_json::to_value(&self.best).unwrap();
            let mut paths = vec![];
            for k in ["files", "steps", "threads"] { walk(&v[k], &mut vec![Key::S(k.into())], &mut paths); }
            if at >= paths.len() { return; }
            let p = paths[at].clone();
            let cur = look(&v, &p).unwrap().clone();
            let mut hit = false;
            for n in simpler(&cur) {
                let mut w = v.clone();
                *look_mut(&mut w, &p).unwrap() = n;
                let Ok(c) = serde_json::from_value::<Case>(w) else { continue };
                if self.attempt(c) { hit = true; break; }
                if self.late() { return; }
            }
            if !hit { at += 1; }
        }
    }
}

#[derive(Clone)]
enum Key { S(String), I(usize) }
fn walk(v: &Value, at: &mut Vec<Key>, out: &mut Vec<Vec<Key>>) {
    match v {
        Value::Array(a) => { if !a.is_empty() { out.push(at.clone()); } for (i, x) in a.iter().enumerate() { at.push(Key::I(i)); walk(x, at, out); at.pop(); } }
        Value::Object(o) => { for (k, x) in o { if matches!(k.as_str(), "name" | "seed" | "hex" | "grp" | "fmt" | "slot" | "f" | "via" | "m") { continue; } at.push(Key::S(k.clone())); walk(x, at, out); at.pop(); } }
        Value::String(s) => { if s.len() >= 2 && s.len() % 2 == 0 && s.bytes().all(|c| c.is_ascii_hexdigit()) { out.push(at.clone()); } }
        Value::Number(n) => { if n.as_u64().unwrap_or(0) > 0 { out.push(at.clone()); } }
        Value::Bool(true) => out.push(at.clone()),
        _ => {}
    }
}
fn look<'v>(v: &'v Value, p: &[Key]) -> Option<&'v Value> { let mut v = v; for k in p { v = match k { Key::S(s) => v.get(s)?, Key::I(i) => v.get(*i)? }; } Some(v) }
fn look_mut<'v>(v: &'v mut Value, p: &[Key]) -> Option<&'v mut Value> { let mut v = v; for k in p { v = match k { Key::S(s) => v.get_mut(s)?, Key::I(i) => v.get_mut(*i)? }; } Some(v) }
fn simpler(v: &Value) -> Vec<Value> {
    match v {
        Value::Array(a) => {
            let n = a.len();
            let mut o = vec![Value::Array(vec![])];
            if n >= 4 { o.push(Value::Array(a[..n / 2].to_vec())); o.push(Value::Array(a[n / 2..].to_vec())); }
            if n >= 2 && n <= 40 { for i in 0..n { let mut b = a.clone(); b.remove(i); o.push(Value::Array(b)); } }
            o
        }
        Value::String(s) => { let n = s.len() / 2; let mut o = vec![Value::String(String::new())]; for k in [n / 8, n / 2, n.saturating_sub(1)] { if k > 0 && k < n { o.push(Value::String(s[..2 * k].into())); } } let z = "0".repeat(s.len()); if *s != z { o.push(Value::String(z)); } o }
        Value::Number(x) => { let n = x.as_u64().unwrap_or(0); let mut o = vec![]; for k in [0, 1, n / 2, n.saturating_sub(1)] { if k < n && !o.contains(&Value::from(k)) { o.push(Value::from(k)); } } o }
        Value::Bool(true) => vec![Value::Bool(false)],
        _ => vec![],
    }
}
