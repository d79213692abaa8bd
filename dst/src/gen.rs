//! Inputs: Lua programs, configurations. Drawn from pools so that reference results can be reused between runs.
use crate::rng::{mix2, Rng};

pub type Opts = Vec<(String, String)>;

struct G<'a> {
    r: &'a mut Rng,
}

impl<'a> G<'a> {
    fn s(&mut self, v: &[&str]) -> String {
        let i = self.r.below(v.len());
        v[i].to_string()
    }
    fn name(&mut self) -> String {
        self.s(&["a", "b", "c", "foo", "bar", "self", "x1", "_t", "value"])
    }
    fn num(&mut self) -> String {
        self.s(&["1", "2", "0", "3.14", "0x1F", "1e10", "42", "1e-5"])
    }
    fn string(&mut self) -> String {
        self.s(&[
            "\"str\"",
            "'chr'",
            "'q\"uote'",
            "\"esc\\\"q\"",
            "[[long]]",
            "[==[l2 ]] x]==]",
            "\"кириллица\"",
            "\"日本語\"",
            "''",
            "\"\"",
            "\"a\\\nb\"",
        ])
    }
    fn ws(&mut self) -> String {
        let x = self.r.below(100);
        match x {
            0..=74 => " ",
            75..=81 => "\n",
            82..=85 => "  ",
            86..=89 => "\n\n",
            90..=92 => " --[[c]] ",
            93..=94 => " -- one\n",
            95..=96 => "\t",
            97 => return self.s(COMMENTS),
            _ => " --[==[ multi\nline ]==] ",
        }
        .to_string()
    }
    fn exp(&mut self, d: i32) -> String {
        let k = if d > 0 { self.r.below(12) } else { self.r.below(4) };
        match k {
            0 => self.name(),
            1 => self.num(),
            2 => self.string(),
            3 => self.s(&["nil", "true", "false"]),
            4 | 5 => {
                let a = self.exp(d - 1);
                let w = self.ws();
                let o = self.s(&[
                    "+", "-", "*", "/", "//", "%", "^", "..", "==", "~=", "<", ">", "<=", ">=", "and", "or", "&", "|",
                    "<<", ">>", "~",
                ]);
                let v = self.ws();
                let b = self.exp(d - 1);
                a + &w + &o + &v + &b
            }
            6 => format!("({})", self.exp(d - 1)),
            7 => self.s(&["not ", "-", "#", "~"]) + &self.exp(0),
            8 => self.call(d - 1),
            9 => self.table(d - 1),
            10 => {
                let n = self.r.below(3);
                let p: Vec<String> = (0..n).map(|_| self.name()).collect();
                let w = self.ws();
                let b = self.block(d - 1, true);
                let v = self.ws();
                format!("function({}){}{}{}end", p.join(","), w, b, v)
            }
            _ => {
                let a = self.name();
                let b = self.name();
                let c = self.exp(0);
                format!("{}.{}[{}]", a, b, c).replace("[[", "[ [").replace("[\"", "[\"")
            }
        }
    }
    fn call(&mut self, d: i32) -> String {
        let mut f = self.name();
        for _ in 0..self.r.below(3) {
            let n = self.name();
            f += &match self.r.below(3) {
                0 => format!(".{}", n),
                1 => format!(":{}()", n),
                _ => "[\"k\"]".to_string(),
            };
        }
        if f.ends_with(')') {
            return f;
        }
        let a = self.r.below(100);
        if a < 70 {
            let n = self.r.below(4);
            let mut o = f + "(";
            for i in 0..n {
                if i > 0 {
                    o += ",";
                    o += &self.ws();
                }
                o += &self.exp(d);
            }
            o + ")"
        } else if a < 85 {
            f + " " + &self.table(d)
        } else {
            f + " " + &self.string()
        }
    }
    fn table(&mut self, d: i32) -> String {
        let n = self.r.below(5);
        let sep = if self.r.pct(50) { "," } else { ";" };
        let mut o = "{".to_string() + &self.ws();
        for i in 0..n {
            if i > 0 {
                o += sep;
                o += &self.ws();
            }
            o += &match self.r.below(3) {
                0 => self.exp(d),
                1 => {
                    let a = self.name();
                    let w = self.ws();
                    let v = self.ws();
                    a + &w + "=" + &v + &self.exp(d)
                }
                _ => {
                    let k = self.num();
                    format!("[\"k{}\"] = ", k) + &self.exp(d)
                }
            };
        }
        if n > 0 && self.r.pct(30) {
            o += sep;
        }
        o + &self.ws() + "}"
    }
    fn stat(&mut self, d: i32) -> String {
        let k = if d > 0 { self.r.below(14) } else { self.r.below(4) };
        match k {
            0 => {
                let a = self.name();
                let w = self.ws();
                let v = self.ws();
                a + &w + "=" + &v + &self.exp(d)
            }
            1 => {
                let a = self.name();
                let w = self.ws();
                let v = self.ws();
                "local ".to_string() + &a + &w + "=" + &v + &self.exp(d)
            }
            2 => self.call(d),
            3 => {
                let (a, b) = (self.name(), self.name());
                let (e, f) = (self.exp(d), self.exp(d));
                format!("{}, {} = {}, {}", a, b, e, f)
            }
            4 => {
                let mut o = "if ".to_string() + &self.exp(1) + &self.ws() + "then" + &self.ws() + &self.block(d - 1, false);
                o += &self.ws();
                if self.r.pct(30) {
                    o += &("elseif ".to_string() + &self.exp(1) + " then" + &self.ws() + &self.block(d - 1, false) + &self.ws());
                }
                if self.r.pct(40) {
                    o += &("else".to_string() + &self.ws() + &self.block(d - 1, false) + &self.ws());
                }
                o + "end"
            }
            5 => "while ".to_string() + &self.exp(1) + &self.ws() + "do" + &self.ws() + &self.block(d - 1, false) + &self.ws() + "end",
            6 => {
                let (a, b) = (self.exp(0), self.exp(0));
                let c = if self.r.pct(30) { format!(", {}", self.num()) } else { String::new() };
                format!("for i = {}, {}{}", a, b, c) + &self.ws() + "do" + &self.ws() + &self.block(d - 1, false) + &self.ws() + "end"
            }
            7 => {
                let n = self.name();
                format!("for k, v in pairs({})", n) + &self.ws() + "do" + &self.ws() + &self.block(d - 1, false) + &self.ws() + "end"
            }
            8 => "repeat".to_string() + &self.ws() + &self.block(d - 1, false) + &self.ws() + "until " + &self.exp(1),
            9 => {
                let n = self.name();
                let s = self.s(&["", ".x", ":y"]);
                let m = self.r.below(3);
                let p: Vec<String> = (0..m).map(|_| self.name()).collect();
                format!("function {}{}({})", n, s, p.join(", ")) + &self.ws() + &self.block(d - 1, false) + &self.ws() + "end"
            }
            10 => {
                let n = self.name();
                let (w, v) = (self.ws(), self.ws());
                format!("local function {}({}a, ...{})", n, w, v) + &self.ws() + &self.block(d - 1, true) + &self.ws() + "end"
            }
            11 => "do".to_string() + &self.ws() + &self.block(d - 1, false) + &self.ws() + "end",
            12 => match self.r.below(3) {
                0 => self.s(PIECES),
                1 => self.long(d - 1),
                _ => self.s(COMMENTS) + &self.name() + " = " + &self.exp(1),
            },
            _ => {
                let (a, b) = (self.name(), self.name());
                format!("local {}, {}", a, b)
            }
        }
    }
    /// wider than a line may be
    fn long(&mut self, d: i32) -> String {
        let n = self.r.range(4, 16);
        let w = self.s(&["", " ", "\n", " -- c\n", " --[[c]] "]);
        let v: Vec<String> = (0..n)
            .map(|i| match self.r.below(6) {
                0 => self.exp(d.min(1)),
                1 => self.string(),
                2 => format!("name_{}.field_{}", i, i * 37),
                3 => format!("call_{}( {}, x )", i, i),
                _ => format!("\"text {}\"", "ab ".repeat(self.r.below(9))),
            })
            .collect();
        match self.r.below(7) {
            0 => format!("local z = {}", v.join(&format!(" ..{} ", w))),
            1 => format!("if {} then{} x() end", v.join(&format!(" and{} ", w)), w),
            2 => format!("f({})", v.join(&format!(",{} ", w))),
            3 => format!("t = {{{}{}}}", w, v.join(&format!(",{} ", w))),
            4 => format!("t = {{{}{}}}", w, v.iter().enumerate().map(|(i, x)| format!("k{} = {}", i, x)).collect::<Vec<_>>().join(&format!(";{}", w))),
            5 => format!("return_ = a{}", v.iter().enumerate().map(|(i, x)| format!("{}:m{}( {} )", if w == "\n" { "\n" } else { "" }, i, x)).collect::<String>()),
            _ => format!("local {} = {}", (0..n).map(|i| format!("var_{}", i)).collect::<Vec<_>>().join(&format!(",{}", w)), v.join(&format!(",{} ", w))),
        }
    }
    fn sep(&mut self) -> String {
        self.s(&["\n", "\n", "\n\n", ";\n", "; ", "\n\n\n", " -- cc\n"])
    }
    fn block(&mut self, d: i32, ret: bool) -> String {
        let mut o = String::new();
        for _ in 0..self.r.below(4) {
            o += &self.stat(d);
            o += &self.sep();
        }
        if ret && self.r.pct(50) {
            o += "return ";
            o += &self.exp(1);
        }
        o
    }
}

/// A valid program. `tag` makes it unlike every other; the tagged statements react to most options.
pub fn program(rng: &mut Rng, tag: &str, stats: usize) -> String {
    let mut g = G { r: rng };
    let mut o = String::new();
    if g.r.pct(10) {
        o += "#!/usr/bin/lua\n";
    }
    if g.r.pct(20) {
        o += "-- head comment\n\n";
    }
    o += &format!("do   {}( 1,2 )\nlocal t_{}={{ 1;2 }}   end\n", tag, tag);
    for _ in 0..g.r.range(0, stats) {
        o += &g.stat(2);
        o += &g.sep();
    }
    if g.r.pct(30) {
        o = o.trim_end().to_string();
    }
    o
}

/// A valid program of about `size` bytes that is still fast to format: few tokens, long ones.
pub fn big_program(rng: &mut Rng, tag: &str, size: usize) -> String {
    let mut o = format!("do   {}( 1,2 )\nlocal t_{}={{ 1;2 }}   end\n", tag, tag);
    let unit = *rng.pick(&["ab\n", "я", "日本", "x y z\n", "abcdefghi ", "é\n"]);
    // shift the unit against block borders
    let mut body = "-".repeat(rng.below(5));
    while o.len() + body.len() + 30 < size {
        body += unit;
    }
    match rng.below(4) {
        0 => o += &format!("local s = [[{}]]\n", body),
        1 => o += &format!("--[[{}]]\nlocal   b\n", body),
        2 => o += &format!("--{}\nlocal   b\n", body.replace('\n', " ")),
        _ => o += &format!("local s   = \"{}\"\n", body.replace('\n', " ")),
    }
    o += "local zz   = 1\n";
    o
}

/// Fragments that no text around them can make part of a valid program, provided they start and end a line.
const NEVER: &[&str] = &[
    "local TAG = = 1", "TAG = 1 $ 2", "x = TAG +* 2", "local 1TAG = 2", "for for TAG in x do end", "TAG()) = 3", "t = { TAG ; ; 1 }",
    "goto goto", "x = y ? TAG : 0", "local function 7() end", "then TAG = 1", "return return TAG", "a.b:c = TAG",
    "if TAG x() end end", "TAG += 1", "x = !TAG",
];
/// Beginnings of statements: no program ends with one.
const UNFINISHED: &[&str] = &[
    "local b = ", "x(1, 2", "t = { 1, TAG", "if TAG then", "for i = 1, 2 do x(TAG)", "TAG = \"abc", "--[[ TAG", "local function TAG(a",
    "while true do", "repeat TAG()", "x = [[ TAG", "x = function() return TAG", "TAG = 1 +", "t.", "if TAG then x() else", "TAG = 'abc\\", "local", "do",
    "x = TAG and", "return (", "f{", "t[1", "x =", "if", "--[==[ ]] ]=] TAG",
];

/// Text that is not Lua: wrong from the start, wrong somewhere in otherwise valid text, or cut.
pub fn invalid_lua(rng: &mut Rng, tag: &str) -> Vec<u8> {
    let v: &[String] = &[
        format!("local {} = = 1\n", tag),
        format!("do {}( 1,2 )\n", tag),
        format!("{} = \"unfinished\nx = 1\n", tag),
        format!("local t_{} = {{ 1, 2\n", tag),
        format!("--[[ never closed {}\n", tag),
        format!("if {} then x() end end\n", tag),
        format!("{}(1,2)\nreturn 1\nlocal a\n", tag),
        format!("{} = 1 $ 2\n", tag),
        format!("end {}\n", tag),
    ];
    let mut o = match rng.below(10) {
        0 | 1 => rng.pick(v).clone(),
        2..=4 => {
            // one wrong line, valid text before it and perhaps after it
            let mut o = String::new();
            if rng.pct(80) {
                let n = rng.below(6);
                o = program(rng, tag, n);
            }
            o += "\n";
            o += &rng.pick(NEVER).replace("TAG", tag);
            o += "\n";
            if rng.pct(60) {
                let n = rng.below(4);
                o += &program(rng, "rest", n).replace("#!/usr/bin/lua\n", "");
            }
            o
        }
        5..=8 => {
            // valid text, then something that is not complete
            let n = rng.below(6);
            let mut o = if rng.pct(12) {
                let z = *rng.pick(BIG);
                big_program(rng, tag, z)
            } else {
                program(rng, tag, n)
            };
            o += "\n";
            o += &rng.pick(UNFINISHED).replace("TAG", tag);
            if rng.pct(30) {
                o += "\n";
            }
            o
        }
        _ => {
            // cut inside its first block
            let s = program(rng, tag, 0);
            let a = s.find("do   ").unwrap_or(0) + 5;
            let b = s.find("   end\n").or(s.rfind("end")).unwrap_or(a + 1);
            s[..rng.range(a, b.max(a + 1) - 1)].to_string()
        }
    };
    if rng.pct(12) {
        o = o.trim_end_matches('\n').to_string();
    }
    if rng.pct(5) {
        o = o.replace('\n', "\r\n");
    }
    o.into_bytes()
}

pub fn invalid_utf8(rng: &mut Rng, tag: &str) -> Vec<u8> {
    let mut v = program(rng, tag, 2).into_bytes();
    match rng.below(4) {
        0 => v.insert(rng.below(v.len()), 0xff),
        1 => v.extend_from_slice(&[b'-', b'-', 0xe6, 0x97]),
        2 => v.extend_from_slice(b"--\xc3\x28\n"),
        _ => v.insert(0, 0x80),
    }
    v
}

/// Ends of files.
const ENDS: &[&str] = &[
    "\n-- end", "\n-- end\n", " -- end", " -- end\n", "\n--[[ end ]]", "\n--[[ end ]]\n", "\n--[==[\n end\n]==]\n", "\n\n\n-- a\n\n\n-- b\n\n\n",
    "\n  -- end\n  ", "\n--", "\n--\n", "\n--[[a]] --[[b]]\n", "\n;\n", ";", "\n\n", "\n-- \u{44f}", "\n--[[\u{65e5}]] -- \u{65e5}\n", "\t\n-- x\n\t", "\nreturn",
    "\n-- nul\0", "\n-- \0\0\n", "\n-- nbsp\u{a0}b", "\n-- a\u{2028}b", "\n-- ff\x0c", "\n-- sub\x1a", "\n-- bom\u{feff}", "\n-- \\", "\n--[[ \r\n \0 ]]",
    "\nlocal   s = \"\0\u{85}\u{a0} \"",
    "\nreturn -- r", "\nreturn   1,2 --[[r]]\n",
];
/// Comments of all kinds; each ends where anything may follow.
const COMMENTS: &[&str] = &[
    " --\n", " --- doc\n", " ---@param x y\n", " -- a\n -- b\n", "\n\n-- a\n\n\n-- b\n\n", " --[[]] ", " --[[\n  a\n    b\n]] ", " --[=[ y ]] ]=] ",
    " --[[ a ]] --[[ b ]] ", " --[[ a ]] -- b\n", " -- a\n--[[ b ]] ", " --\ttab\t\n", " -- trailing   \n", " --[ not long\n", " --[=not long\n", " --]]\n",
    " -- \u{44f}\u{65e5}\n", " --[[ \u{44f}\n\u{65e5} ]] ", "\n    --[[ x ]]\n    --[[ y ]]\n\n", "\n\t-- one\n\t--[==[\n two\n]==]\n\t-- three\n",
];
/// Statements `stat` does not make.
const PIECES: &[&str] = &[
    "goto   done; ::done::", "::l1::", ";;;", "a.b.c  = function ( ... ) return ... end", "function   a.b:c ( x,y ) return self end",
    "local M   = {}", "f{ a=1,b={ c=2,d={ 3;4 } },[5]=6 }", "x = a.b:c( 1 ):d{ 2 }:e\"s\"",
    "if   a then b( ) elseif c then d( ) else e( ) end", "for i=1,10,2 do for j=1,2 do break end end", "local s = [==[\n  raw ]] text\n]==]",
    "t = { f = function( ) end , \"a\" , 'b' ; [[c]] }", "x = -  - 1", "x = not   not a", "x = a   ..b.. c", "x = 2^-3 // 4 % 5 << 1 | 2 ~ 3 & ~4",
    "local function f( ) return function( ) return f end end", "while  true   do  break end", "repeat local x   = 1 until   x", "f   ( )", "f \n { }",
    "-- c1\n-- c2\n\n-- c3\nlocal   z", "--[[ m1\nm2 ]] local   y --[[ m3 ]]   = --[[ m4 ]] 1 -- m5", "local x ={ -- t1\n1, -- t2\n\n2 -- t3\n}",
    "x = { { { 1 } , { 2 } } , { { 3 } } }", "f( function( ) g( ) end , { 1 } , \"long long long string\" , another.long.name , 1234567890 )",
    "x = \"a\\z\n   b\"", "x = '\\x41\\u{48}\\065'", "x = 0xA + 1e2 + 0.5",
];

/// Deeper than what people write, far from what exhausts the stack.
fn deep(r: &mut Rng, tag: &str) -> String {
    let n = r.range(20, 90);
    let rep = |a: &str, m: &str, b: &str| format!("{}{}{}", a.repeat(n), m, b.repeat(n));
    let x = match r.below(8) {
        0 => format!("local x = {}", rep("(", "1", ")")),
        1 => rep("do ", "local   x", " end"),
        // functions and tables inside one another take time exponential in the depth
        2 => format!("local x = {}{}{}", "function( ) return ".repeat(n / 12), 1, " end".repeat(n / 12)),
        3 => format!("local x = {}", vec!["1"; n].join(" +")),
        4 => format!("local x = {}", vec!["'s'"; n].join(".. ")),
        5 => format!("if a then b( ) {} end", "elseif c then   d( ) ".repeat(n)),
        6 => format!("a{}( )", ".b:c( )".repeat(n)),
        _ => format!("local x = {}", rep("not ", "a", "")),
    };
    format!("do   {}( 1,2 ) end\n{}\n", tag, x)
}

/// Programs numbered 0.. ; the same number is the same program throughout a check.
pub struct Pool {
    pub seed: u64,
    pub small: usize,
    pub cfgs: usize,
}

pub const BIG: &[usize] = &[1000, 4090, 4096, 8185, 8192, 8200, 16384, 32768, 65530, 65536, 65600, 131072, 200000];

impl Pool {
    pub fn small(&self, i: usize) -> String {
        let i = i % self.small;
        let mut r = Rng::new(mix2(self.seed, 1000 + i as u64));
        match i % 50 {
            // small but not program-like files
            40 => program(&mut r, &format!("m{}", i), 2).trim_end().to_string() + *r.pick(ENDS),
            39 => {
                let mut o = program(&mut r, &format!("m{}", i), 1).trim_end().to_string() + "\n";
                for _ in 0..r.range(1, 4) {
                    o += *r.pick(PIECES);
                    o += *r.pick(&["\n", "\n", "\n\n", ";\n", " \t\n", "\n-- note\n"]);
                }
                o + *r.pick(ENDS)
            }
            38 => deep(&mut r, &format!("m{}", i)),
            37 => format!("{}{}", *r.pick(&["#!/usr/bin/env lua", "#!/usr/bin/lua\n", "#!x\n\n\n", "#!x\n-- c\n"]), *r.pick(&["", "\n", "\nlocal   a\n"])),
            36 => program(&mut r, &format!("m{}", i), 3).trim_end().lines().map(|l| format!("{}{}\n", l, *r.pick(&["", " ", "\t", "   "]))).collect(),
            47 => format!("-- only_{}\n", i),
            48 => format!("return   m{}", i),
            46 => program(&mut r, &format!("m{}", i), 3).replace('\n', "\r\n"),
            45 => {
                if i % 100 < 50 {
                    String::new()
                } else {
                    format!("{}", "\n".repeat(i / 50))
                }
            }
            44 => format!("\u{feff}{}", program(&mut r, &format!("m{}", i), 1)),
            43 => format!("{}   \n\t\n\n\n  ", program(&mut r, &format!("m{}", i), 2)),
            42 => format!("{}local   z = \"a\0b\"\n", program(&mut r, &format!("m{}", i), 1)),
            41 => program(&mut r, &format!("m{}", i), 12),
            _ => program(&mut r, &format!("m{}", i), 3),
        }
    }
    pub fn big(&self, i: usize) -> String {
        let i = i % (BIG.len() * 4);
        let mut r = Rng::new(mix2(self.seed, 900_000 + i as u64));
        let size = if i == BIG.len() * 4 - 1 { 1_050_000 } else { BIG[i % BIG.len()] + r.below(7) };
        big_program(&mut r, &format!("big{}", i), size)
    }
    pub fn opts(&self, i: usize) -> Opts {
        if i == 0 {
            return shipped();
        }
        let mut r = Rng::new(mix2(self.seed, 500_000 + i as u64));
        options(&mut r, i)
    }
}

/// Options that always show in the output of `program`: the indentation differs from set to set.
pub fn options(r: &mut Rng, i: usize) -> Opts {
    let mut o: Opts = vec![
        ("newline_format_do_end".into(), "1".into()),
        ("newline_format_statement".into(), "1".into()),
        ("indentation_string".into(), format!("{}{}{}", " ".repeat(1 + i % 7), "\t".repeat(i / 7 % 7), " ".repeat(i / 49 % 7))),
    ];
    let tf: &[&str] = &["true", "false"];
    let nl: &[&str] = &["1", "1", "2"];
    let pool: &[(&str, &[&str])] = &[
        ("replace_zero_spaces_with_hint", tf),
        ("hint_before_comment", &[" ", "  "]),
        ("hint_after_multiline_comment", &[" ", ""]),
        ("hint_before_multiline_comment_text", &[" ", ""]),
        ("hint_after_multiline_comment_text", &[" ", ""]),
        ("hint_before_oneline_comment_text", &[" ", ""]),
        ("hint_table_constructor", &[" ", ""]),
        ("remove_comments", tf),
        ("remove_single_newlines", tf),
        ("remove_all_newlines", tf),
        ("remove_spaces_between_tokens", &["true"]),
        ("write_newline_at_eof", tf),
        ("write_newline_at_multiline_table", tf),
        ("write_newline_at_explist_multiline_table", tf),
        ("indent_var_suffix", tf),
        ("indent_one_line_var_suffix", tf),
        ("indent_exp_list", tf),
        ("indent_one_line_exp_list", tf),
        ("newline_format_first_oneline_comment", nl),
        ("newline_format_first_multiline_comment", nl),
        ("newline_format_oneline_comment", nl),
        ("newline_format_multiline_comment", nl),
        ("newline_format_if", nl),
        ("newline_format_for", nl),
        ("newline_format_function", nl),
        ("newline_format_repeat_until", nl),
        ("newline_format_table_constructor", nl),
        ("newline_format_table_field", nl),
        ("newline_format_while", nl),
        ("newline_format_binary_op", nl),
        ("newline_format_var_suffix", nl),
        ("newline_format_exp_list", nl),
        ("newline_format_exp_list_first", nl),
        ("field_separator", &[",", ";"]),
        ("write_trailing_field_separator", tf),
        ("max_width", &["20", "26", "40", "80", "110"]),
        ("convert_charstring_to_normalstring", &["true"]),
        ("force_single_line_binary_op", tf),
        ("force_single_line_table", &["true"]),
        ("force_single_line_iv_table_field", tf),
        ("force_single_line_kv_table_field", tf),
        ("force_single_line_if", tf),
        ("force_single_line_top_level_function", tf),
        ("force_single_line_scoped_function", tf),
        ("force_single_line_var_suffix", tf),
        ("force_single_line_exp_list", tf),
    ];
    if r.pct(15) {
        // those that wrap and join lines work together
        for (n, v) in pool.iter().filter(|x| x.0.starts_with("force_single_line") || x.0.starts_with("newline_format") || x.0 == "max_width") {
            if r.pct(if *n == "max_width" { 50 } else { 70 }) {
                let v = if r.pct(70) { v[0] } else { *r.pick(v) };
                o.push((n.to_string(), v.to_string()));
            }
        }
    }
    let n = if r.pct(12) { r.range(8, 24) } else { r.below(4) };
    for _ in 0..n {
        let (n, v) = r.pick(pool);
        if !o.iter().any(|x| x.0 == *n) {
            o.push((n.to_string(), r.pick(v).to_string()));
        }
    }
    o
}

/// lines in a configuration that have no effect
pub const IDLE: &[&str] = &[
    "no_such_option = 1", "max_width = \"wide\"", "local max_width = 7", "print(\"configuration\")", "if x then max_width = 7 end",
    "t = { indentation_string = \"x\" }", "max_width = -1", "do indentation_string = \"yy\" end", "remove_comments = \"yes\"", "x = y",
    "remove_comments = 1", "newline_format_if = true", "luafmt.max_width = 3", "unused, max_width = 1, 3", "inplace = true", "Max_width = 9",
];
/// arguments that have no effect
pub const IDLE_ARGS: &[&str] = &[
    "--no_such_option=1", "--max_width=wide", "-x", "-I", "-R", "-ir", "--", "-", "--max-width=9", "--newline_format_if=-1", "--remove_comments=yes",
    "--inplace=true", "--line_range=5-7", "--Inplace", "--i n", "--recursive=1", "--max_width", "-i=1", "--remove_comments=True",
];

/// The configuration luafmt ships with (/repo/.luafmt.lua at the pinned commit).
pub fn shipped() -> Opts {
    parse_config(include_str!("shipped.luafmt.lua").as_bytes()).expect("shipped configuration")
}

pub fn render_config(o: &Opts, r: &mut Rng) -> String {
    let mut s = String::new();
    let idle = r.pct(5);
    if r.pct(3) {
        s += "#!/usr/bin/lua\n";
    }
    if r.pct(30) {
        s += "-- configuration\n";
    }
    for (n, v) in o {
        if r.pct(5) {
            s += "-- note\n";
        }
        if idle && r.pct(30) {
            s += r.pick(IDLE);
            s += "\n";
        }
        if v == "true" || v == "false" || (!v.is_empty() && v.bytes().all(|b| b.is_ascii_digit()) && n != "indentation_string") {
            s += &format!("{} = {}\n", n, v);
        } else if r.pct(20) {
            s += &format!("{} = '{}'\n", n, v);
        } else {
            s += &format!("{} = \"{}\"\n", n, v);
        }
    }
    if r.pct(4) {
        s = s.replace('\n', "\r\n");
    }
    if r.pct(8) && !s.ends_with("-- note\n") {
        s = s.trim_end_matches(&['\r', '\n'][..]).to_string();
    }
    s
}

/// Reads configurations of the shape `render_config` writes. None: not a usable configuration.
pub fn parse_config(c: &[u8]) -> Option<Opts> {
    let s = std::str::from_utf8(c).ok()?;
    let mut o = Vec::new();
    for (k, l) in s.lines().enumerate() {
        let l = l.trim();
        if k == 0 && l.starts_with("#!") {
            continue;
        }
        if l.starts_with("--[[") {
            return None; // none is ever closed
        }
        if l.is_empty() || l.starts_with("--") {
            continue;
        }
        if IDLE.contains(&l) {
            continue;
        }
        let k = l.find(" = ")?;
        let (n, mut v) = (&l[..k], &l[k + 3..]);
        if n.is_empty() || !n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') {
            return None;
        }
        if v.len() >= 2 && (v.starts_with('"') && v.ends_with('"') || v.starts_with('\'') && v.ends_with('\'')) {
            v = &v[1..v.len() - 1];
        } else if !(v == "true" || v == "false" || (!v.is_empty() && v.bytes().all(|b| b.is_ascii_digit()))) {
            return None;
        }
        o.push((n.to_string(), v.to_string()));
    }
    Some(o)
}

pub fn broken_config(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0 => b"indentation_string = = \"x\"\n".to_vec(),
        1 => b"indentation_string = \"\xff\xfe\"\n".to_vec(),
        2 => b"if then\n".to_vec(),
        3 => b"indentation_string = \"  \nmax_width = 80\n".to_vec(),
        k => {
            // options that would do, and then something that does not: cut off, or wrong
            let i = 1 + r.below(30);
            let mut o = options(r, i);
            o.truncate(r.range(1, 6));
            let mut c = render_config(&o, r).into_bytes();
            if c.last() != Some(&b'\n') {
                c.push(b'\n');
            }
            c.extend_from_slice(r.pick(&[
                "max_width = ", "max_width =", "field_separator = \",", "indentation_string = 'x", "max_width = = 80", "if then",
                "remove_comments", "hint_table_constructor = \"", "[[", "--[[ rest", "end", "max_width = 80 )", "write_newline_at_eof = tr ue",
            ]).as_bytes());
            if k > 7 {
                c.extend_from_slice(b"\n");
            } else if k > 5 {
                c.extend_from_slice(b"\nmax_width = 90\n");
            }
            c
        }
    }
}
