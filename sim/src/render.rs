//! What a complete dump of a module must mention: every number, text and value type in it.
//! Formatting, field names and order are left open.

use world::model::*;

fn limits(l: &Limits, o: &mut Vec<String>) { o.push(l.min.to_string()); o.extend(l.max.map(|m| m.to_string())); }
fn global(g: &GlobalType, o: &mut Vec<String>) { vt(g.val, o) }
fn vt(t: VT, o: &mut Vec<String>) { o.push(format!("{:?}", t)) }

fn instrs(e: &[Instr], o: &mut Vec<String>) {
    for i in e {
        match &i.imm {
            Imm::None => (),
            Imm::Idx(a) => o.push(a.to_string()),
            Imm::Two(a, b) => o.extend([a.to_string(), b.to_string()]),
            Imm::I32(v) => o.push(v.to_string()),
            Imm::I64(v) => o.push(v.to_string()),
            Imm::F32(b) => o.push(format!("{:?}", f32::from_bits(*b))),
            Imm::F64(b) => o.push(format!("{:?}", f64::from_bits(*b))),
            Imm::BrTable(l, d) => { o.extend(l.iter().map(|x| x.to_string())); o.push(d.to_string()) }
            Imm::Block(t, b) => { t.iter().for_each(|t| vt(*t, o)); instrs(b, o) }
            Imm::If(t, a, b) => { t.iter().for_each(|t| vt(*t, o)); instrs(a, o); instrs(b, o) }
        }
    }
}

pub fn wanted(m: &Module) -> Vec<String> {
    let mut o = vec![];
    for t in &m.types { t.params.iter().chain(&t.results).for_each(|t| vt(*t, &mut o)); }
    for i in &m.imports {
        o.extend([format!("{:?}", i.module), format!("{:?}", i.name)]);
        match &i.desc { Desc::Func(t) => o.push(t.to_string()), Desc::Table(l) | Desc::Mem(l) => limits(l, &mut o), Desc::Global(g) => global(g, &mut o) }
    }
    for f in &m.funcs {
        o.push(f.ty.to_string());
        for (n, t) in &f.locals { for _ in 0..*n { vt(*t, &mut o) } }
        instrs(&f.body, &mut o);
    }
    for t in m.tables.iter().chain(&m.mems) { limits(t, &mut o) }
    for g in &m.globals { global(&g.ty, &mut o); instrs(&g.init, &mut o) }
    for x in &m.exports { o.extend([format!("{:?}", x.name), x.idx.to_string()]) }
    o.extend(m.start.map(|s| s.to_string()));
    for e in &m.elem { o.push(e.table.to_string()); instrs(&e.offset, &mut o); o.extend(e.init.iter().map(|x| x.to_string())) }
    for d in &m.data { o.push(d.mem.to_string()); instrs(&d.offset, &mut o); o.extend(d.init.iter().map(|x| x.to_string())) }
    o.sort();
    o
}

/// Numbers, quoted texts and value type names found in a dump.
pub fn found(dump: &str) -> Vec<String> {
    let b = dump.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let s = i;
        if b[i] == b'"' {
            i += 1;
            while i < b.len() && b[i] != b'"' { i += if b[i] == b'\\' { 2 } else { 1 }; }
            i = (i + 1).min(b.len());
            o.push(dump[s..i].to_string());
        } else if b[i].is_ascii_alphanumeric() || b"_.+-".contains(&b[i]) {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b"_.+-".contains(&b[i])) { i += 1; }
            let w = &dump[s..i];
            if w.parse::<f64>().is_ok() || ["I32", "I64", "F32", "F64"].contains(&w) { o.push(w.to_string()); }
        } else {
            i += 1;
        }
    }
    o.sort();
    o
}

/// First thing the dump fails to mention often enough.
pub fn missing(m: &Module, dump: &str) -> Option<String> {
    let want = wanted(m);
    let got = found(dump);
    let mut j = 0;
    for w in want {
        while j < got.len() && got[j] < w { j += 1; }
        if j >= got.len() || got[j] != w { return Some(w); }
        j += 1;
    }
    None
}
