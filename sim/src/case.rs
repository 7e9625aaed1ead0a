//! A case: files, a history of operations with their faults, possibly concurrent callers. It serialises to the replay file.
use serde::{Deserialize, Serialize};

use crate::img::{Blob, Image};
use crate::model::{hexs, MSpec, MTag};
use crate::sys::{Benign, Fault, Switch};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Via { File, Vec }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    New { slot: u8, meta: MSpec },
    Set { slot: u8, tag: MTag },
    /// all: through remove_tag_by_hex_group (every directory of the group), otherwise from one directory
    Remove { slot: u8, nr: u32, grp: u8, hex: u16, all: bool },
    Query { slot: u8 },
    /// creates a directory
    Ifd { slot: u8, nr: u32, grp: u8 },
    /// reduces it to what a TIFF image needs
    Reduce { slot: u8 },
    Copy { from: u8, to: u8 },
    Read { slot: u8, f: u8, via: Via },
    Write { slot: u8, f: u8, via: Via, ztxt: bool },
    Clear { f: u8, via: Via },
    ClearSeg { f: u8, via: Via, seg: u8 },
    /// the process ends and starts again: only files survive; buffers are loaded from the files anew
    Restart,
}
impl Op {
    pub fn name(&self) -> &'static str {
        match self { Op::New { .. } => "new", Op::Set { .. } => "set", Op::Remove { .. } => "remove", Op::Query { .. } => "query", Op::Ifd { .. } => "create_directory", Op::Reduce { .. } => "reduce", Op::Copy { .. } => "copy", Op::Read { .. } => "read", Op::Write { .. } => "write", Op::Clear { .. } => "clear", Op::ClearSeg { .. } => "clear_segment", Op::Restart => "restart" }
    }
    pub fn target(&self) -> Option<(u8, Via)> { match self { Op::Read { f, via, .. } | Op::Write { f, via, .. } | Op::Clear { f, via } | Op::ClearSeg { f, via, .. } => Some((*f, *via)), _ => None } }
    pub fn mutates(&self) -> bool { matches!(self, Op::Write { .. } | Op::Clear { .. } | Op::ClearSeg { .. }) }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    pub op: Op,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<Fault>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub benign: Option<Benign>,
}
impl Step { pub fn of(op: Op) -> Step { Step { op, faults: vec![], benign: None } } }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    Flip { at: u32, bit: u8 },
    Zero { at: u32, len: u32 },
    Set { at: u32, #[serde(with = "hexs")] data: Vec<u8> },
    Dup { at: u32, len: u32, to: u32 },
    Cut { len: u32 },
    Ins { at: u32, data: Blob },
    Del { at: u32, len: u32 },
}
impl Damage {
    pub fn name(&self) -> &'static str { match self { Damage::Flip { .. } => "bit_flip", Damage::Zero { .. } => "zeroed_sector", Damage::Set { .. } => "overwritten", Damage::Dup { .. } => "duplicated_range", Damage::Cut { .. } => "truncated", Damage::Ins { .. } => "inserted", Damage::Del { .. } => "range_lost" } }
    pub fn apply(&self, d: &mut Vec<u8>) {
        let l = d.len();
        if let Damage::Ins { at, data } = self { let a = *at as usize % (l + 1); let x = data.bytes(); d.splice(a..a, x); return; }
        if l == 0 { return; }
        match self {
            Damage::Flip { at, bit } => d[*at as usize % l] ^= 1 << (bit & 7),
            Damage::Zero { at, len } => { let a = *at as usize % l; let e = (a + *len as usize).min(l); d[a..e].fill(0); }
            Damage::Set { at, data } => { let a = *at as usize % l; for (i, b) in data.iter().enumerate() { if a + i < l { d[a + i] = *b; } } }
            Damage::Dup { at, len, to } => { let a = *at as usize % l; let e = (a + *len as usize).min(l); let x = d[a..e].to_vec(); let t = *to as usize % l; for (i, b) in x.iter().enumerate() { if t + i < l { d[t + i] = *b; } } }
            Damage::Cut { len } => d.truncate(*len as usize % (l + 1)),
            Damage::Del { at, len } => { let a = *at as usize % l; let e = (a + *len as usize).min(l); d.drain(a..e); }
            Damage::Ins { .. } => {}
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FileSpec {
    pub name: String,
    pub img: Image,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub damage: Vec<Damage>,
    #[serde(default)]
    pub ro: bool,
    /// what a file of this name held in an earlier history (padded to the same length where possible)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub before: Option<Image>,
}
impl FileSpec {
    /// The same file with other values in its tags, all of the same length.
    pub fn twin(&self) -> FileSpec {
        fn go(v: &mut serde_json::Value) {
            match v {
                serde_json::Value::Object(o) => {
                    if o.contains_key("hex") && o.contains_key("grp") {
                        let (hex, t) = (o["hex"].as_u64().unwrap_or(0), o["v"]["Raw"][0].as_u64().unwrap_or(0));
                        // not the ones that describe the image itself
                        let image = matches!(hex, 0xfe | 0xff | 0x100..=0x103 | 0x106 | 0x111..=0x11c | 0x13d | 0x142..=0x145 | 0x152 | 0x201 | 0x202 | 0x14a);
                        if let Some(serde_json::Value::String(s)) = o.get_mut("v").and_then(|x| x.get_mut("Raw")).and_then(|x| x.get_mut(1)) {
                            if !image && s.len() >= 2 && s.is_ascii() {
                                let b = u8::from_str_radix(&s[..2], 16).unwrap_or(0);
                                let c = if t == 2 && b <= 1 { b } else { b ^ 1 };
                                s.replace_range(..2, &format!("{c:02x}"));
                            }
                        }
                        return;
                    }
                    for (_, x) in o.iter_mut() { go(x); }
                }
                serde_json::Value::Array(a) => for x in a { go(x); },
                _ => {}
            }
        }
        let mut v = serde_json::to_value(&self.img).unwrap();
        go(&mut v);
        match serde_json::from_value(v) { Ok(img) => FileSpec { img, ..self.clone() }, Err(_) => self.clone() }
    }

    pub fn bytes(&self) -> Vec<u8> { let mut d = self.img.build(); for x in &self.damage { x.apply(&mut d); } d }
    /// The file as it was in the earlier history
    pub fn namesake(&self, twin: bool) -> FileSpec {
        if let Some(b) = &self.before {
            let d = crate::img::pad(b.fmt(), b.build(), self.bytes().len());
            return FileSpec { name: self.name.clone(), img: Image::Raw { fmt: b.fmt(), data: Blob::H(d) }, damage: vec![], ro: self.ro, before: None };
        }
        if twin { self.twin() } else { self.clone() }
    }
    pub fn path(&self) -> String { format!("/simfs/{}", self.name) }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Case {
    pub prop: String,
    /// which generator and which number made it (information only)
    pub origin: String,
    pub files: Vec<FileSpec>,
    #[serde(default)]
    pub rofs: bool,
    pub steps: Vec<Step>,
    /// concurrent callers (after `steps`)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub threads: Vec<Vec<Step>>,
    #[serde(default)]
    pub sched_seed: u64,
    /// under how many schedules they run (each from its own part of the seed's sequence)
    #[serde(default)]
    pub rounds: u8,
    /// the earlier history ran on files of the same names and lengths but with other metadata
    #[serde(default)]
    pub twin: bool,
    /// explicit schedule; replaces the seeded one
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub switches: Option<Vec<Switch>>,
}

impl Case {
    /// The same case with the files' content spelt out
    pub fn baked(&self) -> Case {
        let mut c = self.clone();
        for f in c.files.iter_mut() { let fmt = f.img.fmt(); f.img = Image::Raw { fmt, data: Blob::H(f.bytes()) }; f.damage.clear(); }
        c
    }
}
