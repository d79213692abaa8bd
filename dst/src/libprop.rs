//! C16: calls of the library, one after another and at the same time, give what each gives alone.
use crate::gen::*;
use crate::json::J;
use crate::props::{Ctx, Verdict};
use crate::rng::{hash_bytes, mix2, Rng};
use crate::scenario::*;
use crate::server::Server;
use crate::sim::{run, Mode, Stats};
use crate::world::W;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;

#[derive(Default)]
pub struct LibRefs {
    memo: HashMap<u64, Option<String>>,
    pub runs: u64,
    pub hits: u64,
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
fn unhex(s: &str) -> String {
    let v: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(b'?')).collect();
    String::from_utf8_lossy(&v).into_owned()
}

fn opts_text(o: &Opts) -> String {
    o.iter().map(|(n, v)| format!("{}={}", n, v)).collect::<Vec<_>>().join("\u{1}")
}

const HOME: &str = "/home/u/p";

/// Texts of equal length in bytes (for the same k), the same characters in other places.
fn twin(r: &mut Rng, k: u64) -> String {
    let mut g = Rng::new(mix2(k, 0x7717));
    if k % 3 == 0 {
        // the same lines in another order
        let all = [
            "local a = 'жé' -- first", "do f( 1,2 ) end", "x = { 1;2 } --[[ 日 ]]", "-- c", "for i=1,2 do g(i) end", "if a then b() else c() end",
            "local function h(a,b) return a+b end", "t={ a=1,\n b=2 }", "--[[ long\n comment ]]", "while x do y() end", "",
        ];
        let n = g.range(3, 7);
        let mut v: Vec<&str> = (0..n).map(|_| *g.pick(&all)).collect();
        r.shuffle(&mut v);
        return v.join("\n") + "\n";
    }
    let forms = [
        "local a = 'SSSSSS' -- SSSSSS\nlocal b = \"SSSS\" --[[SSSS]]\n",
        "-- SSSSS\ndo f('SSS', [[SSSSSS]]) end\nx = { 'SSSS', -- SSS\n 1 }\n",
        "do f( 'SSS' ) end -- SSSSSS\nlocal t={ a='SSSSS';2 }\n--[[SSSSSSS\nSSS]]\nreturn t\n",
        "#!/usr/bin/SSSSSS\nfor i=1,2 do g('SSSSSSS') end--SSSS\n",
    ];
    let form = forms[g.below(forms.len())].repeat(1 + g.below(2));
    let n = form.matches('S').count();
    let mut v: Vec<char> = (0..n).map(|_| *g.pick(&['a', 'b', 'é', 'ж', '日', '🙂', 'z', ' '])).collect();
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    form.chars().map(|c| if c == 'S' { v.pop().unwrap() } else { c }).collect()
}

/// a text like that of an earlier call
fn relative(r: &mut Rng, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    if v.is_empty() {
        return "local a = 1".into();
    }
    match r.below(6) {
        0 => t.to_string(),
        1 => v[..r.below(v.len())].iter().collect(),
        2 => v[r.below(v.len())..].iter().collect(),
        3 => format!("{}{}", t, t),
        4 => {
            let i = r.below(v.len());
            v[i] = *r.pick(&['1', 'x', ' ', '\n', 'é']);
            v.into_iter().collect()
        }
        _ => format!("{}\n", t),
    }
}

fn buffer_call(r: &mut Rng, pool: &Pool) -> Vec<String> {
    let text = match r.below(14) {
        0 => String::from_utf8_lossy(&invalid_lua(r, "x")).into_owned(),
        1 => String::new(),
        2 => pool.big(r.below(4 * BIG.len())).chars().take(9000).collect(), // mostly cut in the middle: an error
        3 => format!("#!/usr/bin/lua\n{}", pool.small(r.below(40))),
        _ => pool.small(r.below(40)),
    };
    let mut o = if r.pct(6) { Vec::new() } else { pool.opts(r.below(pool.cfgs)) };
    if r.pct(25) {
        let a = r.range(1, 9);
        o.push(("line_range".into(), format!("{}:{}", a, a + r.below(9))));
    }
    vec!["buffer".into(), text, opts_text(&o)]
}

pub fn generate(seed: u64, pool: &Pool) -> Scenario {
    // a few trees that recur, so that results of calls alone can be remembered
    let mut r = Rng::new(mix2(seed, 0x11b));
    let tree = r.below(6) as u64;
    let mut w = W::new("C16", mix2(pool.seed, tree), pool);
    w.root = HOME.into();
    w.dirs = vec![HOME.into()];
    w.big = 3;
    w.sc.dir(HOME);
    w.project(7, 60);
    for (n, c) in [("/bad.lua", invalid_lua(&mut w.r, "b")), ("/raw.lua", invalid_utf8(&mut w.r, "u"))] {
        w.sc.file(&format!("{}{}", HOME, n), &c);
        w.files.push(format!("{}{}", HOME, n));
    }
    w.sc.dir("/home/u/none");
    let c = w.content();
    w.sc.file("/home/u/none/x.lua", &c);
    w.files.push("/home/u/none/x.lua".into());
    w.files.push(format!("{}/missing.lua", HOME));
    let configs: Vec<String> =
        w.sc.nodes.iter().filter(|n| n.path.rsplit('/').next().unwrap_or("").starts_with(".luafmt")).map(|n| n.path.clone()).collect();
    let (files, dirs) = (w.files.clone(), w.dirs.clone());
    let mut sc = w.sc;
    sc.seed = seed;
    sc.env.uid = 1000;
    sc.noise = seed;
    let variant = r.below(5);
    sc.variant = ["sequence", "two threads", "threads", "threads", "threads, same call"][variant].into();
    let nthreads = match variant {
        0 => 1,
        1 => 2,
        _ => r.range(2, 4),
    };
    let nstages = if r.pct(45) { r.range(2, 3) } else { 1 };
    let per = if variant == 0 { r.range(6, 24) } else { r.range(1, 5) };
    let buffers = *r.pick(&[100usize, 60, 20]);
    // with the files as subject, few of them: the same ones again after they have changed
    let few: Vec<String> = (0..r.range(1, 4)).map(|_| r.pick(&files).clone()).collect();
    let shared = buffer_call(&mut r, pool);
    // texts that resemble one another, in the same place
    let alike = *r.pick(&[0usize, 0, 30, 90]);
    let mut common = buffer_call(&mut r, pool)[2].clone();
    if r.pct(40) && !common.contains("line_range") {
        let a = r.range(1, 4);
        common = format!("{}{}line_range={}:{}", common, if common.is_empty() { "" } else { "\u{1}" }, a, a + r.below(4));
    }
    let same_opts = *r.pick(&[0usize, 40, 90]);
    let family = r.below(40) as u64;
    let per = if variant == 0 && r.pct(8) { r.range(60, 250) } else { per };
    let mut last = String::new();
    let mut stages = Vec::new();
    for s in 0..nstages {
        let mut ops: Vec<J> = Vec::new();
        if s > 0 {
            for _ in 0..r.below(3) {
                match r.below(4) {
                    0 => {
                        let c = r.pick(&configs).clone();
                        let o = pool.opts(r.below(pool.cfgs));
                        let t = render_config(&o, &mut Rng::new(1));
                        ops.push(J::Arr(vec![J::s(c), J::s(t)]));
                    }
                    1 => ops.push(J::Arr(vec![J::s(r.pick(&configs))])),
                    2 => {
                        let d = r.pick(&dirs).clone();
                        let o = pool.opts(r.below(pool.cfgs));
                        ops.push(J::Arr(vec![J::s(format!("{}/.luafmt.lua", d)), J::s(render_config(&o, &mut Rng::new(1)))]));
                    }
                    _ => {
                        let f = r.pick(&few).clone();
                        let c = pool.small(r.below(40));
                        ops.push(J::Arr(vec![J::s(f), J::s(c)]));
                    }
                }
            }
        }
        let mut threads = Vec::new();
        for _ in 0..nthreads {
            let mut calls = Vec::new();
            for _ in 0..per {
                let c: Vec<String> = if variant == 4 && r.pct(70) {
                    shared.clone()
                } else if r.pct(buffers) {
                    let mut c = buffer_call(&mut r, pool);
                    if r.pct(alike) {
                        c[1] = if r.pct(70) { twin(&mut r, family) } else { relative(&mut r, &last) };
                        if r.pct(same_opts) {
                            c[2] = common.clone();
                        }
                    }
                    last = c[1].clone();
                    if r.pct(if alike > 0 { 75 } else { 50 }) {
                        c[0] = "again".into();
                    }
                    c
                } else {
                    let f = r.pick(&few).clone();
                    match r.below(8) {
                        0 => vec!["find".into(), f],
                        1 => vec!["load".into(), r.pick(&configs).clone()],
                        2 => vec!["list".into(), r.pick(&dirs).clone(), if r.pct(50) { "1" } else { "0" }.into()],
                        3 => vec!["file".into(), f, opts_text(&pool.opts(r.below(pool.cfgs)))],
                        _ => vec!["file".into(), f, String::new()],
                    }
                };
                calls.push(J::from(c));
            }
            threads.push(J::Arr(calls));
        }
        stages.push(J::obj().set("ops", J::Arr(ops)).set("threads", J::Arr(threads)));
    }
    sc.params.insert("stages".into(), J::Arr(stages));
    let dense = variant != 0 && r.pct(50);
    let rates: &[i64] = if dense { &[10, 100, 100, 1_000, 1_000, 10_000, 50_000] } else { &[0, 300, 3_000, 20_000, 100_000, 400_000] };
    sc.params.insert("permillion".into(), J::from(*r.pick(rates)));
    sc.params.insert("dense".into(), J::from(dense));
    sc.proc(HOME, &[]);
    sc.max_steps = 20_000;
    sc
}

fn op_line(o: &J) -> String {
    let a = o.arr();
    match a.get(1) {
        Some(c) => format!("write {} {}\n", hex(a[0].str().as_bytes()), hex(c.str().as_bytes())),
        None => format!("remove {}\n", hex(a[0].str().as_bytes())),
    }
}
fn call_line(t: usize, c: &J) -> String {
    let a = c.arr();
    let mut s = format!("call {} {}", t, a[0].str());
    for x in &a[1..] {
        s += " ";
        s += &hex(x.str().as_bytes());
    }
    s + "\n"
}

impl LibRefs {
    /// the call alone in a fresh process; None: it does not come back
    fn get(&mut self, srv: &mut Server, sc: &Scenario, tree: u64, ops: &[J], call: &J) -> Option<String> {
        let mut text = String::from("seed 1\npermillion 0\nthreads 1\nstage\n");
        for o in ops {
            text += &op_line(o);
        }
        text += &call_line(0, call);
        let buffer = matches!(call.arr()[0].str(), "buffer" | "again");
        let key = if buffer { hash_bytes(call_line(0, call).replacen("again", "buffer", 1).as_bytes()) } else { mix2(tree, hash_bytes(text.as_bytes())) };
        if let Some(r) = self.memo.get(&key) {
            self.hits += 1;
            return r.clone();
        }
        if self.memo.len() > 40_000 {
            self.memo.clear();
        }
        self.runs += 1;
        let mut s = Scenario::new("ref", 1);
        s.nodes = sc.nodes.clone();
        s.env.uid = sc.env.uid;
        s.proc(HOME, &[]);
        s.phases[0].procs[0].stdin = text.into_bytes();
        s.max_steps = 10_000;
        let r = run(srv, &s, Mode::Record, &mut |_, _| None, false);
        let o = results(&String::from_utf8_lossy(&r.phases[0].procs[0].out));
        let x = o.by.get(&0).and_then(|v| v.first().cloned());
        self.memo.insert(key, x.clone());
        x
    }
}

#[derive(Default)]
struct Out {
    by: BTreeMap<usize, Vec<String>>,
    points: u64,
    forced: u64,
    switches: Option<String>,
    stuck: Option<String>,
}
fn results(t: &str) -> Out {
    let mut o = Out::default();
    for l in t.lines() {
        let w: Vec<&str> = l.splitn(3, ' ').collect();
        match w[0] {
            "result" => o.by.entry(w[1].parse().unwrap_or(99)).or_default().push(w.get(2).unwrap_or(&"").to_string()),
            "points" => {
                o.points = w[1].parse().unwrap_or(0);
                o.forced = w[2].trim_start_matches("forced ").parse().unwrap_or(0);
            }
            "switches" => o.switches = Some(w.get(1).unwrap_or(&"").to_string()),
            "stuck" => o.stuck = Some(l[6..].to_string()),
            _ => {}
        }
    }
    o
}

fn show(r: &str) -> String {
    let (k, x) = r.split_once(' ').unwrap_or((r, ""));
    let t: String = unhex(x).chars().take(300).collect();
    format!("{} {:?}", k, t)
}
fn show_call(c: &J) -> String {
    let a: Vec<String> = c.arr().iter().map(|x| x.str().chars().take(70).collect::<String>().replace('\u{1}', " ")).collect();
    format!("{:?}", a)
}

pub fn evaluate(ctx: &mut Ctx, sc: &Scenario, mode: Mode, trace: bool) -> Verdict {
    let mut sc = sc.clone();
    let stages = sc.p("stages").arr().to_vec();
    let n = stages.iter().map(|s| s.get("threads").arr().len()).max().unwrap_or(1).max(1);
    let mut text = format!("seed {}\npermillion {}\n", sc.seed, sc.p("permillion").int());
    if sc.p("dense").bool() {
        text += "dense\n";
    }
    if !sc.p("switches").is_null() {
        text += &format!("replay {}\n", sc.p("switches").str());
    }
    text += &format!("threads {}\n", n);
    let tree = {
        let mut h = 7;
        for x in &sc.nodes {
            h = mix2(h, hash_bytes(x.path.as_bytes()));
            if let NK::File(c) = &x.kind {
                h = mix2(h, hash_bytes(c));
            }
        }
        h
    };
    for s in &stages {
        text += "stage\n";
        for o in s.get("ops").arr() {
            text += &op_line(o);
        }
        for (t, calls) in s.get("threads").arr().iter().enumerate() {
            for c in calls.arr() {
                text += &call_line(t, c);
            }
        }
    }
    sc.phases[0].procs[0].stdin = text.into_bytes();
    let mut lib = ctx.lib.take().expect("libsim is needed for C16");
    let r = run(&mut lib, &sc, mode, &mut |_, _| None, trace);
    let p = &r.phases[0].procs[0];
    let out = results(&String::from_utf8_lossy(&p.out));
    // what each call gives when it is alone
    let mut fail = None;
    let mut skip = false;
    let mut calls = 0;
    let mut kinds: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut at: BTreeMap<usize, usize> = BTreeMap::new();
    let mut ops: Vec<J> = Vec::new();
    for (si, s) in stages.iter().enumerate() {
        ops.extend(s.get("ops").arr().iter().cloned());
        for (t, cs) in s.get("threads").arr().iter().enumerate() {
            for c in cs.arr() {
                calls += 1;
                let k = at.entry(t).or_default();
                let got = out.by.get(&t).and_then(|v| v.get(*k));
                *k += 1;
                match (ctx.librefs.get(&mut lib, &sc, tree, &ops, c), got) {
                    (None, _) => skip = true,
                    (Some(a), Some(b)) if a == *b => {
                        *kinds.entry(match a.split(' ').next() {
                            Some("ok") => "calls that succeed",
                            Some("err") => "calls that return an error",
                            _ => "calls that panic",
                        }).or_default() += 1;
                    }
                    (Some(a), Some(b)) => {
                        fail = fail.or(Some(format!(
                            "call {} of thread {} (stage {}) {} gives {}; alone in a fresh process it gives {}",
                            k, t + 1, si + 1, show_call(c), show(b), show(&a)
                        )));
                    }
                    (Some(_), None) => {}
                }
            }
        }
    }
    if fail.is_none() && !skip {
        if let Some(s) = &out.stuck {
            fail = Some(format!("the calls do not end: {}", s));
        } else if let Some(s) = &p.stuck {
            fail = Some(format!("the calls do not end: {}", s));
        } else if p.status != 0 || out.by.values().map(|v| v.len()).sum::<usize>() != calls {
            fail = Some(format!("the process ends with status {:x} although each call alone comes back", p.status));
        }
    }
    ctx.lib = Some(lib);
    let mut stats: Stats = r.stats;
    for (k, v) in kinds {
        *stats.probes.entry(k).or_default() += v;
    }
    let sw = out.switches.clone().unwrap_or_default();
    let nsw = if sw.is_empty() { 0 } else { sw.split(',').count() };
    *stats.probes.entry("preemption points").or_default() += out.points;
    *stats.probes.entry("preemptions").or_default() += nsw as u64;
    *stats.probes.entry("hand-overs because of a lock").or_default() += out.forced;
    *stats.probes.entry("library calls").or_default() += calls as u64;
    if skip {
        fail = None;
        *stats.probes.entry("runs not judged: reference abnormal").or_default() += 1;
    }
    let mut tr = r.trace;
    if trace {
        tr.push(format!("switches (allocation count:thread) {}", sw));
        for (t, v) in &out.by {
            for (i, x) in v.iter().enumerate() {
                tr.push(format!("thread {} result {}: {}", t + 1, i + 1, show(x)));
            }
        }
    }
    let summary = format!(
        "seed {} {}: {} threads, {} stages, {} calls, {} preemption points, {} preemptions",
        sc.seed, sc.variant, n, stages.len(), calls, out.points, nsw
    );
    let mut plan = r.plan;
    plan.switches = sw.clone();
    Verdict {
        fail,
        plan,
        hash: mix2(r.hash, hash_bytes(sw.as_bytes())),
        stats,
        trace: tr,
        skipped: skip,
        nontrivial: calls > 1,
        summary,
    }
}

/// Drops stages, threads' calls, file changes and preemptions as long as the run still fails.
pub fn minimise(sc: &Scenario, plan: &Plan, mut fails: impl FnMut(&Scenario) -> bool) -> Scenario {
    let mut best = sc.clone();
    // the recorded preemptions, as a list
    if best.p("switches").is_null() {
        let mut s = best.clone();
        s.params.insert("switches".into(), J::s(&plan.switches));
        if !fails(&s) {
            return best;
        }
        best = s;
    }
    let set_stages = |b: &Scenario, st: Vec<J>| {
        let mut s = b.clone();
        s.params.insert("stages".into(), J::Arr(st));
        s
    };
    for round in 0..2 {
        // no preemption at all?
        let mut s = best.clone();
        s.params.insert("switches".into(), J::s(""));
        if best.p("switches").str() != "" && fails(&s) {
            best = s;
        }
        // calls, from the end
        let nst = best.p("stages").arr().len();
        for si in (0..nst).rev() {
            let nth = best.p("stages").arr()[si].get("threads").arr().len();
            for t in 0..nth {
                let mut k = best.p("stages").arr()[si].get("threads").arr()[t].arr().len();
                let mut size = k;
                while size > 0 {
                    k = best.p("stages").arr()[si].get("threads").arr()[t].arr().len();
                    let mut hi = k;
                    while hi > 0 {
                        let lo = hi.saturating_sub(size);
                        let mut st = best.p("stages").arr().to_vec();
                        let mut th = st[si].get("threads").arr().to_vec();
                        let mut cs = th[t].arr().to_vec();
                        cs.drain(lo..hi.min(cs.len()));
                        th[t] = J::Arr(cs);
                        st[si].put("threads", J::Arr(th));
                        let s = set_stages(&best, st);
                        if fails(&s) {
                            best = s;
                        }
                        hi = lo;
                    }
                    size /= 2;
                }
            }
            let no = best.p("stages").arr()[si].get("ops").arr().len();
            for o in (0..no).rev() {
                let mut st = best.p("stages").arr().to_vec();
                let mut ops = st[si].get("ops").arr().to_vec();
                ops.remove(o);
                st[si].put("ops", J::Arr(ops));
                let s = set_stages(&best, st);
                if fails(&s) {
                    best = s;
                }
            }
        }
        let sw: Vec<String> = best.p("switches").str().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        let mut cur = sw;
        let mut size = cur.len() / 2;
        while size > 0 && round == 0 {
            let mut lo = 0;
            while lo < cur.len() {
                let mut c = cur.clone();
                c.drain(lo..(lo + size).min(c.len()));
                let mut s = best.clone();
                s.params.insert("switches".into(), J::s(c.join(",")));
                if fails(&s) {
                    best = s;
                    cur = c;
                } else {
                    lo += size;
                }
            }
            size /= 2;
        }
    }
    best
}
