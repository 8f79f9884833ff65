//! Interpreter of client programs over the real core library.
//!
//! Reads `job.json` (setup / threads / final lists of operations), executes it and writes `result.json` with one log
//! entry per operation.  Runs under the deterministic simulation runtime: threads, randomness and time are simulated.
//! It makes no judgement; the driver compares logs of related programs.
use reductionml_core::object_pool::{Pool, PoolReturnable};
use reductionml_core::parsers::{
    DsJsonParserFactory, JsonParserFactory, TextModeParser, TextModeParserFactory, VwTextParserFactory,
};
use reductionml_core::sparse_namespaced_features::SparseFeatures;
use reductionml_core::workspace::{Configuration, Workspace};
use reductionml_core::{BinaryLabel, CBAdfFeatures, CBLabel, Features, FeaturesType, Label, LabelType, Prediction, SimpleLabel};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Read};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

extern "C" {
    fn dst_steps() -> u64;
}
fn steps() -> u64 {
    unsafe { dst_steps() }
}

type P = Arc<dyn TextModeParser + Send + Sync>;
type SP = Arc<Pool<SparseFeatures>>;

struct Tok {
    id: u64,
    dirty: u64,
}
static NEXT_TOK: AtomicU64 = AtomicU64::new(0);
impl Default for Tok {
    fn default() -> Tok {
        Tok { id: NEXT_TOK.fetch_add(1, Ordering::SeqCst), dirty: 0 }
    }
}

struct Shared {
    pools: HashMap<String, SP>,
    parsers: HashMap<String, (P, SP)>,
    tok: Pool<Tok>,
}
struct Slot {
    f: Features<'static>,
    l: Option<Label>,
    pool: SP,
}
#[derive(Default)]
struct Local {
    ws: HashMap<String, Workspace>,
    slots: HashMap<String, Slot>,
    bufs: HashMap<String, Vec<u8>>,
    jbufs: HashMap<String, Value>,
    toks: HashMap<String, Tok>,
}

fn ftypes(s: &str) -> (FeaturesType, LabelType) {
    match s {
        "cb" => (FeaturesType::SparseCBAdf, LabelType::CB),
        _ => (FeaturesType::SparseSimple, LabelType::Simple),
    }
}
fn make_parser(format: &str, kind: &str, seed: u32, bits: u8, pool: SP) -> P {
    let (ft, lt) = ftypes(kind);
    match format {
        "vw-text" => Arc::new(VwTextParserFactory::default().create(ft, lt, seed, bits, pool)),
        "json" => Arc::new(JsonParserFactory::default().create(ft, lt, seed, bits, pool)),
        "dsjson" => Arc::new(DsJsonParserFactory::default().create(ft, lt, seed, bits, pool)),
        _ => panic!("bad format"),
    }
}
fn kind_of(w: &Workspace) -> &'static str {
    match w.get_entry_reduction().types().input_features_type() {
        FeaturesType::SparseCBAdf => "cb",
        _ => "simple",
    }
}
// clients own features objects or lend them
fn via<R>(f: &mut Features<'static>, byref: bool, g: impl FnOnce(&mut Features) -> R) -> R {
    if byref {
        match f {
            Features::SparseSimple(x) => return g(&mut Features::SparseSimpleRef(x)),
            Features::SparseCBAdf(x) => return g(&mut Features::SparseCBAdfRef(x)),
            _ => (),
        }
    }
    g(f)
}
// no parser produces binary labels: clients of binary stacks turn the sign of a simple label into one
fn adapt(w: &Workspace, l: &Label) -> Label {
    match l {
        Label::Simple(x) if w.get_entry_reduction().types().input_label_type() == LabelType::Binary => Label::Binary(BinaryLabel(x.value() > 0.0)),
        Label::Simple(x) => Label::Simple(*x),
        Label::CB(x) => Label::CB(*x),
        Label::Binary(x) => Label::Binary(*x),
    }
}
fn parser_for(w: &Workspace, format: &str, pool: SP) -> P {
    make_parser(format, kind_of(w), w.global_config().hash_seed(), w.global_config().num_bits(), pool)
}

fn b(x: f32) -> Value {
    // exact, with both zeros identified
    let x = if x == 0.0 { 0.0f32 } else { x };
    if x.is_nan() { json!("nan") } else { json!(x.to_bits()) }
}
fn pred(p: &Prediction) -> Value {
    match p {
        Prediction::Scalar(s) => json!(["scalar", b(s.prediction), b(s.raw_prediction)]),
        Prediction::ActionScores(v) => json!(["scores", v.0.iter().map(|(a, s)| json!([a, b(*s)])).collect::<Vec<_>>()]),
        Prediction::ActionProbs(v) => json!(["probs", v.0.iter().map(|(a, s)| json!([a, b(*s)])).collect::<Vec<_>>()]),
        other => json!(["other", serde_json::to_string(other).unwrap()]),
    }
}
fn label(l: &Option<Label>) -> Value {
    match l {
        None => Value::Null,
        Some(Label::Simple(s)) => json!(["simple", b(s.value()), b(s.weight())]),
        Some(Label::CB(c)) => json!(["cb", c.action(), b(c.cost()), b(c.probability())]),
        Some(_) => json!(["other"]),
    }
}
fn snap1(f: &SparseFeatures) -> Value {
    let mut v = vec![];
    for (ns, it) in f.namespaces() {
        let got = f.get_namespace(ns);
        if got.is_none() {
            // an inactive namespace must not contribute anything
            let leftover = it.count();
            if leftover > 0 { v.push(json!(["STALE", format!("{:?}", ns), leftover])); }
            continue;
        }
        let list: Vec<Value> = it.map(|(i, x)| json!([*i, b(x)])).collect();
        let viaget: Vec<Value> = got.unwrap().iter().map(|(i, x)| json!([*i, b(x)])).collect();
        if list != viaget { v.push(json!(["MISMATCH", format!("{:?}", ns)])); }
        v.push(json!([format!("{:?}", ns), list]));
    }
    let all: Vec<Value> = f.all_features().map(|(i, x)| json!([*i, b(x)])).collect();
    json!({"ns": v, "all": all, "empty": f.empty()})
}
fn snap(f: &Features) -> Value {
    match f {
        Features::SparseSimple(s) => snap1(s),
        Features::SparseSimpleRef(s) => snap1(s),
        Features::SparseCBAdf(c) => snapcb(c),
        Features::SparseCBAdfRef(c) => snapcb(c),
    }
}
fn snapcb(c: &CBAdfFeatures) -> Value {
    json!({"shared": c.shared.as_ref().map(snap1), "actions": c.actions.iter().map(snap1).collect::<Vec<_>>()})
}
fn count(f: &Features) -> usize {
    match f {
        Features::SparseSimple(s) => s.all_features().count(),
        Features::SparseSimpleRef(s) => s.all_features().count(),
        Features::SparseCBAdf(c) => c.shared.as_ref().map_or(0, |x| x.all_features().count()) + c.actions.iter().map(|x| x.all_features().count()).sum::<usize>(),
        Features::SparseCBAdfRef(c) => c.shared.as_ref().map_or(0, |x| x.all_features().count()) + c.actions.iter().map(|x| x.all_features().count()).sum::<usize>(),
    }
}
fn hash_bytes(v: &[u8]) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for x in v { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); h ^= h >> 29; }
    format!("{:016x}:{}", h, v.len())
}
fn canon(w: &Workspace) -> Value {
    serde_json::to_value(w).unwrap()
}
// zero-sign-insensitive, key-order-insensitive digest of the full serialized state
fn digest(v: &Value, out: &mut String) {
    match v {
        Value::Object(m) => {
            let mut k: Vec<&String> = m.keys().collect();
            k.sort();
            out.push('{');
            for x in k { out.push_str(x); out.push(':'); digest(&m[x], out); out.push(','); }
            out.push('}');
        }
        Value::Array(a) => { out.push('['); for x in a { digest(x, out); out.push(','); } out.push(']'); }
        Value::Number(n) if n.is_f64() => { let f = n.as_f64().unwrap(); if f == 0.0 { out.push('0') } else { out.push_str(&f.to_string()) } }
        Value::Number(n) => if n.as_f64() == Some(0.0) { out.push('0') } else { out.push_str(&n.to_string()) },
        other => out.push_str(&other.to_string()),
    }
}
fn state_digest(w: &Workspace) -> String {
    let mut s = String::new();
    digest(&canon(w), &mut s);
    hash_bytes(s.as_bytes())
}

struct SimReader {
    data: Vec<u8>,
    pos: usize,
    plan: Vec<(i64, usize)>, // (size or -1 EINTR or -2 EIO, _)
    k: usize,
    buf: Vec<u8>,
    bpos: usize,
    failed: bool,
}
impl SimReader {
    fn raw(&mut self, want: usize) -> std::io::Result<Vec<u8>> {
        let step = if self.k < self.plan.len() { self.plan[self.k].0 } else { 4096 };
        self.k += 1;
        if step == -1 { return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)); }
        if step == -2 { self.failed = true; return Err(std::io::Error::from_raw_os_error(5)); }
        let n = (step.max(1) as usize).min(want).min(self.data.len() - self.pos);
        let v = self.data[self.pos..self.pos + n].to_vec();
        self.pos += n;
        Ok(v)
    }
}
impl Read for SimReader {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if self.bpos < self.buf.len() {
            let n = out.len().min(self.buf.len() - self.bpos);
            out[..n].copy_from_slice(&self.buf[self.bpos..self.bpos + n]);
            self.bpos += n;
            return Ok(n);
        }
        let v = self.raw(out.len())?;
        out[..v.len()].copy_from_slice(&v);
        Ok(v.len())
    }
}
impl BufRead for SimReader {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.bpos >= self.buf.len() {
            self.buf = self.raw(1 << 16)?;
            self.bpos = 0;
        }
        Ok(&self.buf[self.bpos..])
    }
    fn consume(&mut self, n: usize) {
        self.bpos += n;
    }
}

fn s<'a>(o: &'a Value, i: usize) -> &'a str {
    o[i].as_str().unwrap_or_else(|| panic!("harness: bad op {}", o))
}

fn exec(o: &Value, sh: &mut Option<&mut Shared>, shr: Option<&Shared>, lo: &mut Local) -> Value {
    let shared_ref: &Shared = match (&sh, shr) {
        (_, Some(r)) => r,
        (Some(m), None) => m,
        _ => unreachable!(),
    };
    match s(o, 0) {
        "pool" => {
            sh.as_mut().unwrap().pools.insert(s(o, 1).to_owned(), Arc::new(Pool::new()));
            Value::Null
        }
        // ["parser", name, format, kind, seed, bits, pool]
        "parser" => {
            let pool = shared_ref.pools[s(o, 6)].clone();
            let p = make_parser(s(o, 2), s(o, 3), o[4].as_u64().unwrap() as u32, o[5].as_u64().unwrap() as u8, pool.clone());
            sh.as_mut().unwrap().parsers.insert(s(o, 1).to_owned(), (p, pool));
            Value::Null
        }
        "ws" => match Configuration::from_json_str(&o[2].to_string()).and_then(Workspace::new) {
            Ok(w) => { lo.ws.insert(s(o, 1).to_owned(), w); json!("ok") }
            Err(e) => json!(format!("err: {}", e)),
        },
        // ["parse", slot, parser, text]
        "parse" => {
            let (p, pool) = &shared_ref.parsers[s(o, 2)];
            match p.parse_chunk(s(o, 3)) {
                Ok((f, l)) => {
                    let r = json!(["ok", label(&l)]);
                    lo.slots.insert(s(o, 1).to_owned(), Slot { f, l, pool: pool.clone() });
                    r
                }
                Err(e) => json!(["err", e.to_string()]),
            }
        }
        // ["parsefresh", slot, format, kind, seed, bits, text]
        "parsefresh" => {
            let pool: SP = Arc::new(Pool::new());
            let p = make_parser(s(o, 2), s(o, 3), o[4].as_u64().unwrap() as u32, o[5].as_u64().unwrap() as u8, pool.clone());
            match p.parse_chunk(s(o, 6)) {
                Ok((f, l)) => {
                    let r = json!(["ok", label(&l)]);
                    lo.slots.insert(s(o, 1).to_owned(), Slot { f, l, pool });
                    r
                }
                Err(e) => json!(["err", e.to_string()]),
            }
        }
        "predict" => {
            let w = &lo.ws[s(o, 1)];
            let sl = lo.slots.get_mut(s(o, 2)).unwrap();
            via(&mut sl.f, o[3] == "ref", |f| pred(&w.predict(f)))
        }
        "learn" => {
            let w = lo.ws.get_mut(s(o, 1)).unwrap();
            let sl = lo.slots.get_mut(s(o, 2)).unwrap();
            { let l = adapt(w, sl.l.as_ref().expect("the example has no label")); via(&mut sl.f, o[3] == "ref", |f| w.learn(f, &l)); }
            json!("ok")
        }
        "pl" => {
            let w = lo.ws.get_mut(s(o, 1)).unwrap();
            let sl = lo.slots.get_mut(s(o, 2)).unwrap();
            { let l = adapt(w, sl.l.as_ref().expect("the example has no label")); via(&mut sl.f, o[3] == "ref", |f| pred(&w.predict_then_learn(f, &l))) }
        }
        // ["repeat", ws, slot, "predict" | "learn" | "pl", n]: the same request n times; the last prediction
        "repeat" => {
            let w = lo.ws.get_mut(s(o, 1)).unwrap();
            let sl = lo.slots.get_mut(s(o, 2)).unwrap();
            let mut r = json!("ok");
            for _ in 0..o[4].as_u64().unwrap() {
                match s(o, 3) {
                    "predict" => { let p = w.predict(&mut sl.f); r = pred(&p); }
                    x => {
                        let l = adapt(w, sl.l.as_ref().expect("the example has no label"));
                        if x == "pl" { let p = w.predict_then_learn(&mut sl.f, &l); r = pred(&p); } else { w.learn(&mut sl.f, &l) }
                    }
                }
            }
            r
        }
        // ["decide", ws, slot, u, cost]: sample an action from the distribution, attach the label it would get
        "decide" => {
            let w = &lo.ws[s(o, 1)];
            let sl = lo.slots.get_mut(s(o, 2)).unwrap();
            let p = w.predict(&mut sl.f);
            let r = pred(&p);
            if let Prediction::ActionProbs(v) = &p {
                let u = o[3].as_f64().unwrap() as f32;
                let mut acc = 0.0;
                let mut pick = None;
                for (a, q) in &v.0 {
                    if *q > 0.0 { pick = Some((*a, *q)); acc += *q; if u < acc { break; } }
                }
                let (a, q) = pick.expect("no action with positive probability");
                sl.l = Some(Label::CB(CBLabel::new(a, o[4].as_f64().unwrap() as f32, q)));
            }
            r
        }
        "setlabel" => {
            let sl = lo.slots.get_mut(s(o, 1)).unwrap();
            sl.l = Some(match s(o, 2) {
                "cb" => Label::CB(CBLabel::new(o[3].as_u64().unwrap() as usize, o[4].as_f64().unwrap() as f32, o[5].as_f64().unwrap() as f32)),
                _ => Label::Simple(SimpleLabel::new(o[3].as_f64().unwrap() as f32, o[4].as_f64().unwrap() as f32)),
            });
            Value::Null
        }
        "empty" => {
            let f = if s(o, 2) == "cb" { Features::SparseCBAdf(CBAdfFeatures::default()) } else { Features::SparseSimple(SparseFeatures::new()) };
            lo.slots.insert(s(o, 1).to_owned(), Slot { f, l: None, pool: Arc::new(Pool::new()) });
            Value::Null
        }
        "label" => label(&lo.slots[s(o, 1)].l),
        "snap" => snap(&lo.slots[s(o, 1)].f),
        "clone" => {
            let n = { let a = &lo.slots[s(o, 2)]; Slot { f: a.f.clone(), l: clone_label(&a.l), pool: a.pool.clone() } };
            lo.slots.insert(s(o, 1).to_owned(), n);
            Value::Null
        }
        "eq" => json!(lo.slots[s(o, 1)].f == lo.slots[s(o, 2)].f),
        "nscount" => match &lo.slots[s(o, 1)].f {
            Features::SparseSimple(f) => json!(f.namespaces().count()),
            Features::SparseCBAdf(c) => json!([c.shared.as_ref().map(|x| x.namespaces().count()), c.actions.iter().map(|x| x.namespaces().count()).collect::<Vec<_>>()]),
            _ => Value::Null,
        },
        "ret" => {
            if let Some(sl) = lo.slots.remove(s(o, 1)) { sl.f.clear_and_return_object(sl.pool.as_ref()); }
            Value::Null
        }
        "drop" => { lo.slots.remove(s(o, 1)); Value::Null }
        "poollen" => json!(shared_ref.pools[s(o, 1)].len()),
        "save" => {
            match lo.ws[s(o, 1)].serialize_model() {
                Ok(v) => { let h = hash_bytes(&v); lo.bufs.insert(s(o, 2).to_owned(), v); json!(h) }
                Err(e) => json!(format!("err: {}", e)),
            }
        }
        "load" => {
            match Workspace::create_from_model(&lo.bufs[s(o, 2)]) {
                Ok(w) => { lo.ws.insert(s(o, 1).to_owned(), w); json!("ok") }
                Err(e) => json!(format!("err: {}", e)),
            }
        }
        "savefile" => { std::fs::write(s(o, 2), lo.ws[s(o, 1)].serialize_model().unwrap()).unwrap(); Value::Null }
        "loadfile" => {
            match Workspace::create_from_model(&std::fs::read(s(o, 2)).unwrap()) {
                Ok(w) => { lo.ws.insert(s(o, 1).to_owned(), w); json!("ok") }
                Err(e) => json!(format!("err: {}", e)),
            }
        }
        "jsave" => {
            match lo.ws[s(o, 1)].serialize_to_json() {
                Ok(v) => { lo.jbufs.insert(s(o, 2).to_owned(), v); json!("ok") }
                Err(e) => json!(format!("err: {}", e)),
            }
        }
        "jload" => {
            match Workspace::deserialize_from_json(&lo.jbufs[s(o, 2)]) {
                Ok(w) => { lo.ws.insert(s(o, 1).to_owned(), w); json!("ok") }
                Err(e) => json!(format!("err: {}", e)),
            }
        }
        // through text, as export-model / import-model do
        "jtext" => {
            let t = serde_json::to_string_pretty(&lo.jbufs[s(o, 1)]).unwrap();
            let v: Value = serde_json::from_str(&t).unwrap();
            lo.jbufs.insert(s(o, 1).to_owned(), v);
            Value::Null
        }
        "jdump" => lo.jbufs[s(o, 1)].clone(),
        // ["trunc", newbuf, buf, n] / ["tryload", buf]
        "trunc" => {
            let v = lo.bufs[s(o, 2)].clone();
            let n = (o[3].as_u64().unwrap() as usize).min(v.len());
            lo.bufs.insert(s(o, 1).to_owned(), v[..n].to_vec());
            Value::Null
        }
        // ["sweep", buf, ws-for-compare, [lengths]]: try every listed truncation of buf
        "sweep" => {
            let v = lo.bufs[s(o, 1)].clone();
            let mut bad = vec![];
            let mut kinds: HashMap<&str, u64> = HashMap::new();
            let lens: Vec<usize> = match &o[2] {
                Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as usize).filter(|n| *n < v.len()).collect(),
                _ => (0..v.len()).collect(),
            };
            for n in lens {
                let t = v[..n].to_vec();
                match catch_unwind(AssertUnwindSafe(|| Workspace::create_from_model(&t).map(|w| state_digest(&w)).map_err(|e| e.to_string()))) {
                    Ok(Ok(_)) => { *kinds.entry("accepted").or_default() += 1; bad.push(json!([n, "accepted"])); }
                    Ok(Err(_)) => *kinds.entry("error").or_default() += 1,
                    Err(p) => { *kinds.entry("panic").or_default() += 1; if bad.len() < 5 { bad.push(json!([n, format!("panic: {}", pmsg(p))])); } }
                }
            }
            json!({"bad": bad, "kinds": kinds, "len": v.len()})
        }
        "buflen" => json!(lo.bufs[s(o, 1)].len()),
        "tryload" => match Workspace::create_from_model(&lo.bufs[s(o, 1)]) {
            Ok(w) => json!(["ok", state_digest(&w)]),
            Err(e) => json!(["err", e.to_string()]),
        },
        "state" => json!(state_digest(&lo.ws[s(o, 1)])),
        "canon" => canon(&lo.ws[s(o, 1)]),
        // what the process-wide registry of reductions says
        "schema" => {
            let mut c = reductionml_core::config_schema::ConfigSchema::new();
            reductionml_core::reduction_registry::REDUCTION_REGISTRY.lock().iter().for_each(|x| c.add_reduction(x));
            json!(hash_bytes(serde_json::to_string(c.schema()).unwrap().as_bytes()))
        }
        "defaults" => {
            let g = reductionml_core::reduction_registry::REDUCTION_REGISTRY.lock();
            json!(g.iter().map(|x| json!([x.typename().to_string(), x.get_config_default(), x.get_suggested_metrics()])).collect::<Vec<_>>())
        }
        // JSON has no non-finite numbers; they show up as nulls
        "nulls" => {
            fn n(v: &Value) -> u64 {
                match v {
                    Value::Null => 1,
                    Value::Array(a) => a.iter().map(n).sum(),
                    Value::Object(m) => m.values().map(n).sum(),
                    _ => 0,
                }
            }
            json!(n(&canon(&lo.ws[s(o, 1)])))
        }
        "filestate" => match std::fs::read(s(o, 1)) {
            Ok(v) => match Workspace::create_from_model(&v) {
                Ok(w) => json!(["ok", state_digest(&w), hash_bytes(&v)]),
                Err(e) => json!(["err", e.to_string()]),
            },
            Err(e) => json!(["io", e.to_string()]),
        },
        // reference training: fresh parser and pool for each example, predict and learn as separate calls
        // ["train", ws, format, [texts], stop_on_error]
        "train" => {
            let fmt = s(o, 2).to_owned();
            let mut out = vec![];
            for t in o[3].as_array().unwrap() {
                let w = lo.ws.get_mut(s(o, 1)).unwrap();
                let p = parser_for(w, &fmt, Arc::new(Pool::new()));
                let (mut f, l) = match p.parse_chunk(t.as_str().unwrap()) {
                    Ok(x) => x,
                    Err(e) => { out.push(json!(["err", e.to_string()])); break; }
                };
                let n = count(&f);
                let lab = label(&l);
                // o[4]: "pl" one call, "learn" no prediction, otherwise predict and learn as separate calls
                let l = l.as_ref().map(|l| adapt(w, l));
                let pr = match o[4].as_str() {
                    Some("pl") => w.predict_then_learn(&mut f, l.as_ref().unwrap()),
                    Some("learn") => {
                        w.learn(&mut f, l.as_ref().unwrap());
                        out.push(Value::Null);
                        continue;
                    }
                    _ => {
                        let p = w.predict(&mut f);
                        w.learn(&mut f, l.as_ref().unwrap());
                        p
                    }
                };
                out.push(json!([serde_json::to_string(&pr).unwrap(), pred(&pr), lab, n]));
            }
            json!(out)
        }
        // ["stream", ws, parser, [text with @ for the number, ...], "predict" | "learn" | "pl", n, [metric, ...]]: n examples one after the other through the parser's pool
        "stream" => {
            let (p, pool) = &shared_ref.parsers[s(o, 2)];
            let w = lo.ws.get_mut(s(o, 1)).unwrap();
            let texts: Vec<&str> = o[3].as_array().unwrap().iter().map(|t| t.as_str().unwrap()).collect();
            let mut ms: Vec<_> = o[6].as_array().unwrap().iter().map(|m| reductionml_core::metrics::get_metric(m.as_str().unwrap()).expect("harness: no such metric")).collect();
            let mut last = Value::Null;
            for k in 0..o[5].as_u64().unwrap() as usize {
                let t = texts[k % texts.len()].replace('@', &k.to_string());
                let (mut f, l) = match p.parse_chunk(&t) {
                    Ok(x) => x,
                    Err(e) => { last = json!(["err", e.to_string()]); break; }
                };
                let l = adapt(w, l.as_ref().unwrap());
                match s(o, 4) {
                    "learn" => w.learn(&mut f, &l),
                    m => {
                        let pr = if m == "pl" { w.predict_then_learn(&mut f, &l) } else { w.predict(&mut f) };
                        for x in &mut ms { x.add_point(&f, &l, &pr); }
                    }
                }
                f.clear_and_return_object(pool);
                last = json!(k);
            }
            last
        }
        // ["metric", name, ws, [[slot, repetitions], ...]]: the metric over a long history of predict-ahead points
        "metric" => {
            let mut m = reductionml_core::metrics::get_metric(s(o, 1)).expect("harness: no such metric");
            let w = &lo.ws[s(o, 2)];
            let mut out = vec![];
            for seg in o[3].as_array().unwrap() {
                let sl = lo.slots.get_mut(seg[0].as_str().unwrap()).unwrap();
                let p = w.predict(&mut sl.f);
                let l = adapt(w, sl.l.as_ref().unwrap());
                for _ in 0..seg[1].as_u64().unwrap() { m.add_point(&sl.f, &l, &p); }
                out.push(json!([m.get_value().to_string(), pred(&p), label(&sl.l), count(&sl.f)]));
            }
            json!(out)
        }
        // ["chunks", format, kind, hex data, [plan], [initial buffers]]
        "chunks" => {
            let pool: SP = Arc::new(Pool::new());
            let p = make_parser(s(o, 1), s(o, 2), 0, 10, pool);
            let data: Vec<u8> = (0..s(o, 3).len() / 2).map(|i| u8::from_str_radix(&s(o, 3)[2 * i..2 * i + 2], 16).unwrap()).collect();
            let plan = o[4].as_array().unwrap().iter().map(|x| (x.as_i64().unwrap(), 0)).collect();
            let mut r = SimReader { data, pos: 0, plan, k: 0, buf: vec![], bpos: 0, failed: false };
            let bufs = o[5].as_array().unwrap();
            let mut reuse: Option<String> = None;
            let mut out = vec![];
            let mut i = 0;
            loop {
                let b0 = if !bufs.is_empty() { bufs[i % bufs.len()].as_str().unwrap().to_owned() } else { reuse.take().unwrap_or_default() };
                i += 1;
                match p.get_next_chunk(&mut r, b0) {
                    Ok(Some(c)) => { out.push(json!(c)); reuse = Some(c); }
                    Ok(None) => { out.push(json!(["eof", r.failed])); break; }
                    Err(e) => { out.push(json!(["err", e.to_string(), r.pos])); break; }
                }
                if i > 100000 { out.push(json!(["runaway"])); break; }
            }
            json!(out)
        }
        // tagged-object pool
        "pget" => {
            let a = steps();
            let before = NEXT_TOK.load(Ordering::SeqCst);
            let mut t = shared_ref.tok.get_object();
            let z = steps();
            let d = t.dirty;
            t.dirty += 1;
            let id = t.id;
            lo.toks.insert(s(o, 1).to_owned(), t);
            let _ = before;
            json!(["pget", a, z, id, d])
        }
        "pret" => match lo.toks.remove(s(o, 1)) {
            Some(t) => {
                let id = t.id;
                let a = steps();
                shared_ref.tok.return_object(t);
                json!(["pret", a, steps(), id])
            }
            None => Value::Null,
        },
        "plen" => { let a = steps(); let n = shared_ref.tok.len(); json!(["plen", a, steps(), n]) }
        "pempty" => { let a = steps(); let n = shared_ref.tok.is_empty(); json!(["pempty", a, steps(), n]) }
        "pdrain" => {
            let mut v = vec![];
            while !shared_ref.tok.is_empty() && v.len() < 1000000 { let t = shared_ref.tok.get_object(); v.push(t.id); }
            json!(v)
        }
        other => panic!("harness: unknown op {}", other),
    }
}
fn clone_label(l: &Option<Label>) -> Option<Label> {
    l.as_ref().map(|l| match l {
        Label::Simple(x) => Label::Simple(*x),
        Label::CB(x) => Label::CB(*x),
        _ => panic!("harness: label"),
    })
}
fn pmsg(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(x) = p.downcast_ref::<&str>() { x.to_string() } else if let Some(x) = p.downcast_ref::<String>() { x.clone() } else { "?".to_owned() }
}
fn run(ops: &Value, sh: &mut Option<&mut Shared>, shr: Option<&Shared>, lo: &mut Local) -> Vec<Value> {
    let mut log = vec![];
    for o in ops.as_array().unwrap_or(&vec![]) {
        match catch_unwind(AssertUnwindSafe(|| exec(o, sh, shr, lo))) {
            Ok(v) => log.push(v),
            Err(p) => log.push(json!(["panic", pmsg(p)])),
        }
    }
    log
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let job: Value = serde_json::from_slice(&std::fs::read("job.json").unwrap()).unwrap();
    let mut shared = Shared { pools: HashMap::new(), parsers: HashMap::new(), tok: Pool::new() };
    let mut lo = Local::default();
    let setup = run(&job["setup"], &mut Some(&mut shared), None, &mut lo);
    let tlogs: Vec<Mutex<Vec<Value>>> = job["threads"].as_array().unwrap_or(&vec![]).iter().map(|_| Mutex::new(vec![])).collect();
    if let Some(ts) = job["threads"].as_array() {
        let sref = &shared;
        let tl = &tlogs;
        std::thread::scope(|sc| {
            for (i, t) in ts.iter().enumerate() {
                sc.spawn(move || {
                    let mut lo = Local::default();
                    let v = run(t, &mut None, Some(sref), &mut lo);
                    *tl[i].lock().unwrap() = v;
                });
            }
        });
    }
    let fin = run(&job["final"], &mut Some(&mut shared), None, &mut lo);
    let res = json!({"setup": setup, "threads": tlogs.into_iter().map(|m| m.into_inner().unwrap()).collect::<Vec<_>>(), "final": fin});
    std::fs::write("result.json", serde_json::to_vec(&res).unwrap()).unwrap();
}
