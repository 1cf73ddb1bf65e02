//! C23: dates and times against a calendar of our own.

use crate::engine::{Ctx, Facet, Prop, Res, Src};
use crate::ev::{Opts, V};
use crate::gen::*;

pub const PREFIX: &str = "\
wrap(x): [x] head
same-instant(a, b): [a = b, b = a, a < b, a > b, a <= b, b >= a]
";

/// A time as its local civil seconds, nanoseconds (1e9 and more in a leap
/// second) and offset in seconds.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct T {
    local: i64,
    nanos: i64,
    off: i64,
}

pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    // days before the year and the month by counting, not by a formula shared with any library
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let y0 = y - 1;
    let before = 365 * y0 + y0.div_euclid(4) - y0.div_euclid(100) + y0.div_euclid(400);
    let lens = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    before + lens[..(m - 1) as usize].iter().sum::<i64>() + d - 1 - 719_162
}

pub fn month_len(y: i64, m: i64) -> i64 {
    if m == 12 {
        31
    } else {
        days_from_civil(y, m + 1, 1) - days_from_civil(y, m, 1)
    }
}

/// (year, month, day) of a number of days since 1970-01-01.
pub fn civil(days: i64) -> (i64, i64, i64) {
    let mut y = 1970 + days.div_euclid(366);
    while days_from_civil(y + 1, 1, 1) <= days {
        y += 1;
    }
    while days_from_civil(y, 1, 1) > days {
        y -= 1;
    }
    let mut m = 1;
    while m < 12 && days_from_civil(y, m + 1, 1) <= days {
        m += 1;
    }
    (y, m, days - days_from_civil(y, m, 1) + 1)
}

fn offset(off: i64, colon: bool) -> String {
    let (sign, a) = if off < 0 { ('-', -off) } else { ('+', off) };
    format!("{sign}{:02}{}{:02}", a / 3600, if colon { ":" } else { "" }, a % 3600 / 60)
}

impl T {
    fn ymd(&self) -> (i64, i64, i64) {
        civil(self.local.div_euclid(86400))
    }
    fn hms(&self) -> (i64, i64, i64) {
        let s = self.local.rem_euclid(86400);
        (s / 3600, s / 60 % 60, s % 60 + self.nanos / 1_000_000_000)
    }
    fn instant(&self) -> (i64, i64) {
        (self.local - self.off, self.nanos)
    }
    fn year(y: i64) -> String {
        if (0..=9999).contains(&y) {
            format!("{y:04}")
        } else {
            format!("{y:+05}")
        }
    }
    fn date(&self, sep: &str) -> String {
        let (y, m, d) = self.ymd();
        format!("{}{sep}{m:02}{sep}{d:02}", T::year(y))
    }
    fn clock(&self, sep: &str) -> String {
        let (h, m, s) = self.hms();
        format!("{h:02}{sep}{m:02}{sep}{s:02}")
    }
    /// The fraction with as many digits as asked for, or as few groups of three as needed.
    fn frac(&self, digits: Option<usize>) -> String {
        let n = self.nanos % 1_000_000_000;
        let all = format!("{n:09}");
        match digits {
            Some(0) => String::new(),
            Some(k) => format!(".{}", &all[..k]),
            None if n == 0 => String::new(),
            None if n % 1_000_000 == 0 => format!(".{}", &all[..3]),
            None if n % 1000 == 0 => format!(".{}", &all[..6]),
            None => format!(".{all}"),
        }
    }
    pub fn iso(&self) -> String {
        format!("{}T{}{}{}", self.date("-"), self.clock(":"), self.frac(None), offset(self.off, true))
    }
    fn v(&self) -> V {
        V::Time(self.iso())
    }
    fn seconds(&self) -> f64 {
        // to the millisecond
        self.hms().2 as f64 + (self.nanos % 1_000_000_000 / 1_000_000) as f64 / 1000.0
    }
    fn fields(&self) -> V {
        let (y, m, d) = self.ymd();
        let (h, mi, _) = self.hms();
        let f = |k: &str, v: V| (V::Sym(k.to_string()), v);
        V::Block(vec![
            f("y", V::i(y)),
            f("m", V::i(m)),
            f("d", V::i(d)),
            f("H", V::i(h)),
            f("M", V::i(mi)),
            f("S", V::Float(self.seconds())),
            f("Z", V::s(offset(self.off, false))),
        ])
    }
    fn millis(mut self) -> T {
        self.nanos -= self.nanos % 1_000_000;
        self
    }
    fn with(mut self, off: i64) -> T {
        self.local += off - self.off;
        self.off = off;
        self
    }
    fn plain(&self) -> bool {
        (0..=9999).contains(&self.ymd().0)
    }
}

fn any_offset(s: &mut Src) -> i64 {
    match s.below(6) {
        0 | 1 => 0,
        2 => s.range(-14, 14) * 3600,
        3 => s.range(-26, 26) * 1800,
        4 => *s.pick(&[5 * 3600 + 2700, -(9 * 3600 + 1800), 23 * 3600 + 59 * 60, -(23 * 3600 + 59 * 60), 60, -60, -1800]),
        _ => s.range(-1439, 1439) * 60,
    }
}

fn any_date(s: &mut Src, wild: bool) -> i64 {
    let y = match s.below(6) {
        0 | 1 => s.range(1990, 2040),
        2 => *s.pick(&[1600, 1700, 1899, 1900, 1904, 1968, 1969, 1970, 1972, 1999, 2000, 2001, 2004, 2038, 2100, 2400]),
        3 => s.range(1, 9998),
        4 if wild => s.range(-5000, 20000),
        4 => s.range(1500, 2500),
        _ if wild => *s.pick(&[-1, 0, -4, -100, -400, 10000, 9999, 1, 99999, -9999, -10000]),
        _ => s.range(1901, 2199),
    };
    let m = s.range(1, 12);
    let d = match s.below(4) {
        0 => month_len(y, m),
        1 => 1,
        2 => days_from_civil(y, 3, 1) - days_from_civil(y, 2, 1), // 28 or 29
        _ => s.range(1, 28),
    };
    if s.below(8) == 7 {
        return days_from_civil(y, 2, days_from_civil(y, 3, 1) - days_from_civil(y, 2, 1));
    }
    days_from_civil(y, m, d)
}

fn any_clock(s: &mut Src) -> i64 {
    match s.below(4) {
        0 => 0,
        1 => *s.pick(&[86399, 43200, 3600, 59, 60, 3599, 82800, 86340]),
        _ => s.range(0, 86399),
    }
}

fn any_nanos(s: &mut Src) -> i64 {
    match s.below(8) {
        0..=3 => 0,
        4 | 5 => *s.pick(&[1, 5, 50, 100, 123, 250, 500, 999, 90, 7, 29, 58]) * 1_000_000,
        6 => *s.pick(&[1000, 999_000, 1_000_500, 123_456_000, 999_999_000, 500_500_000]),
        _ => *s.pick(&[1, 999, 123_456_789, 999_999_999, 1_000_001]),
    }
}

fn any_time(s: &mut Src, wild: bool) -> T {
    T { local: any_date(s, wild) * 86400 + any_clock(s), nanos: any_nanos(s), off: any_offset(s) }
}

/// Whether summer time is in force at an instant, by the rules of each zone from 2008 on.
fn zone(name: &str, utc: i64) -> i64 {
    let (y, _, _) = civil(utc.div_euclid(86400));
    let weekday = |d: i64| (d + 4).rem_euclid(7); // 0 is Sunday
    let last = |m: i64| {
        let d = days_from_civil(y, m, month_len(y, m));
        d - weekday(d)
    };
    let nth = |m: i64, n: i64| {
        let d = days_from_civil(y, m, 1);
        d + (7 - weekday(d)) % 7 + 7 * (n - 1)
    };
    let eu = || utc >= last(3) * 86400 + 3600 && utc < last(10) * 86400 + 3600;
    let us = |std: i64| utc >= nth(3, 2) * 86400 + 7200 - std && utc < nth(11, 1) * 86400 + 7200 - (std + 3600);
    let h = 3600;
    match name {
        "Europe/London" => eu() as i64 * h,
        "Europe/Paris" => h + eu() as i64 * h,
        "America/New_York" => -5 * h + us(-5 * h) as i64 * h,
        "America/Los_Angeles" => -8 * h + us(-8 * h) as i64 * h,
        "Australia/Sydney" => {
            // standard time from the first Sunday of April, 3:00 summer time, to the first Sunday of October, 2:00
            let standard = utc >= nth(4, 1) * 86400 - 8 * h && utc < nth(10, 1) * 86400 - 8 * h;
            10 * h + !standard as i64 * h
        }
        "Asia/Kolkata" => 5 * h + 1800,
        "Asia/Kathmandu" => 5 * h + 2700,
        "Asia/Tokyo" => 9 * h,
        _ => 0,
    }
}
const ZONES: [&str; 10] = [
    "Europe/London", "Europe/Paris", "America/New_York", "America/Los_Angeles", "Australia/Sydney", "Asia/Kolkata",
    "Asia/Kathmandu", "Asia/Tokyo", "UTC", "Etc/UTC",
];

/// The offset at a local time: the earlier instant when there are two, none in a gap.
fn resolve(name: &str, local: i64) -> Option<i64> {
    let mut best: Option<i64> = None;
    for off in (-16..=28).map(|q| q * 1800).chain([5 * 3600 + 2700]) {
        if zone(name, local - off) == off && best.map(|b| off > b).unwrap_or(true) {
            best = Some(off);
        }
    }
    best
}

/// Text which a literal and `cal.parse` both take, with the time it denotes.
fn text(s: &mut Src, t: T) -> (String, T) {
    match s.below(7) {
        0 => (t.date("-"), T { local: t.local.div_euclid(86400) * 86400, nanos: 0, off: 0 }),
        1 => (format!("{}T{}{}", t.date("-"), t.clock(":"), t.frac(None)), T { off: 0, ..t }),
        2 => {
            let t = T { off: 0, ..t };
            (format!("{}T{}{}Z", t.date("-"), t.clock(":"), t.frac(None)), t)
        }
        3 => {
            let k = s.n(10);
            let scale = 10i64.pow(9 - k as u32);
            let t = T { nanos: t.nanos - t.nanos % scale, ..t };
            (format!("{}T{}{}{}", t.date("-"), t.clock(":"), t.frac(Some(k)), offset(t.off, true)), t)
        }
        _ => (t.iso(), t),
    }
}

/// An expression for a time, and the time.
fn expr(s: &mut Src, t: T, depth: usize) -> (String, T) {
    let plain = t.plain();
    match s.below(if depth == 0 { 6 } else { 10 }) {
        0 | 1 if plain => {
            let (x, t) = text(s, t);
            (format!("t\"{x}\""), t)
        }
        2 if plain => {
            let (x, t) = text(s, t);
            (call(s, "cal.parse", &[lit_str(&x)]), t)
        }
        3 if plain => {
            // compact
            let t = T { off: 0, nanos: 0, ..t };
            let (x, t) = match s.below(3) {
                0 => (t.date(""), T { local: t.local.div_euclid(86400) * 86400, ..t }),
                1 => (format!("{}T{}", t.date(""), &t.clock("")[..4]), T { local: t.local.div_euclid(60) * 60, ..t }),
                _ => (format!("{}T{}", t.date(""), t.clock("")), t),
            };
            (call(s, "cal.parse", &[lit_str(&x)]), t)
        }
        6 | 7 => {
            let (e, t) = expr(s, t, depth - 1);
            if s.bool() {
                (format!("(({e}) cal.format cal.parse)"), t)
            } else {
                (format!("(({e}) cal.fields cal.datetime)"), t.millis())
            }
        }
        8 => {
            let (e, t) = expr(s, t, depth - 1);
            match s.below(4) {
                0 => (format!("wrap({e})"), t),
                1 => (format!("{{ t: {e} }}.t"), t),
                2 => (format!("([1, {e}] last)"), t),
                _ => (format!("if(1 < 2, {e}, null)"), t),
            }
        }
        _ => {
            let t = t.millis();
            let (y, m, d) = t.ymd();
            let (h, mi, sec) = t.hms();
            let whole = t.nanos == 0 && sec < 60;
            let secs = if whole && s.pct(80) { sec.to_string() } else { lit_f64(t.seconds()) };
            let mut zs = vec![offset(t.off, false), offset(t.off, true)];
            if t.off == 0 {
                zs.extend(["Z".to_string(), "UTC".to_string()]);
            }
            let z = lit_str(&s.pick(&zs).clone());
            if s.bool() {
                let args: Vec<String> =
                    [lit_int(y as i128), m.to_string(), d.to_string(), h.to_string(), mi.to_string(), secs, z].to_vec();
                (call(s, "cal.zdt", &args), t)
            } else {
                let mut fs = vec![];
                let all = [
                    ("y", lit_int(y as i128), y == 1),
                    ("m", m.to_string(), m == 1),
                    ("d", d.to_string(), d == 1),
                    ("H", h.to_string(), h == 0),
                    ("M", mi.to_string(), mi == 0),
                    ("S", secs, whole && sec == 0),
                    ("Z", z, t.off == 0),
                ];
                for (k, v, default) in all {
                    if !(default && s.pct(60)) {
                        fs.push(format!("{k}: {v}"));
                    }
                }
                s.shuffle(&mut fs);
                (call(s, "cal.datetime", &[format!("{{ {} }}", fs.join(" "))]), t)
            }
        }
    }
}

fn some(s: &mut Src) -> (String, T) {
    let t = any_time(s, true);
    let d = s.n(3);
    expr(s, t, d)
}

fn values(s: &mut Src, ctx: &mut Ctx) -> Res {
    let xs = items(s, 16, 0, |s| {
        let (e, t) = some(s);
        match s.below(6) {
            0 => it("value", e, Exp::Val(t.v()), t.local != 0),
            1 | 2 => it("fields", call(s, "cal.fields", &[e]), Exp::Val(t.fields()), true),
            3 => it("format", call(s, "cal.format", &[e]), Exp::Val(V::s(t.iso())), true),
            4 => {
                let n = any_date(s, true) * 86400 + any_clock(s);
                let t = T { local: n, nanos: 0, off: 0 };
                it("epoch", call(s, "cal.ifields", &[lit_int(n as i128)]), Exp::Val(t.fields()), n != 0)
            }
            _ => {
                let z = *s.pick(&ZONES);
                let y = s.range(2008, 2036);
                // often near a change
                let day = match s.below(3) {
                    0 => days_from_civil(y, s.range(1, 12), s.range(1, 28)),
                    1 => days_from_civil(y, *s.pick(&[3, 4]), s.range(1, 30)),
                    _ => days_from_civil(y, *s.pick(&[10, 11]), s.range(1, 30)),
                };
                let mut day = day;
                if s.pct(60) {
                    day -= (day + 4).rem_euclid(7); // a Sunday
                }
                let local = day * 86400 + s.range(0, 8) * 1800 + *s.pick(&[0, 0, 1, 1799]);
                let Some(off) = resolve(z, local) else {
                    return it("zone", "1".into(), Exp::Val(V::i(1)), false);
                };
                let t = T { local, nanos: 0, off };
                let (y, m, d) = t.ymd();
                let (h, mi, sec) = t.hms();
                let e = format!("cal.datetime({{ y: {y} m: {m} d: {d} H: {h} M: {mi} S: {sec} Z: {} }})", lit_str(z));
                it("zone", e, Exp::Val(t.v()), true)
            }
        }
    });
    run_items(ctx, PREFIX, &xs, &Opts::default())
}

/// A time related to another: the same instant elsewhere, a moment apart, or unrelated.
fn near(s: &mut Src, t: T) -> T {
    let off = any_offset(s);
    match s.below(5) {
        0 | 1 => t.with(off),
        2 => {
            let mut u = t.with(off);
            u.local += *s.pick(&[1, -1, 3600, -3600, 60, 86400]);
            u
        }
        3 => {
            let mut u = t.with(off);
            u.nanos = any_nanos(s);
            u
        }
        _ => any_time(s, false),
    }
}

fn order(s: &mut Src, ctx: &mut Ctx) -> Res {
    let xs = items(s, 12, 0, |s| {
        let t = any_time(s, false);
        let (ea, a) = expr(s, t, 1);
        match s.below(5) {
            0 | 1 => {
                let u = near(s, a);
                let (eb, b) = expr(s, u, 1);
                let (x, y) = (a.instant(), b.instant());
                let (op, want) = *s.pick(&[
                    ("<", x < y),
                    (">", x > y),
                    ("<=", x <= y),
                    (">=", x >= y),
                    ("=", x == y),
                    ("!=", x != y),
                ]);
                it("compare", binop(s, op, &ea, &eb), Exp::Val(V::Bool(want)), x != y)
            }
            2 => {
                let u = near(s, a);
                let (eb, b) = expr(s, u, 1);
                let (x, y) = (a.instant(), b.instant());
                let want = [x == y, x == y, x < y, x > y, x <= y, y >= x].map(V::Bool);
                it("all", format!("same-instant({ea}, {eb})"), Exp::Val(V::list(want)), true)
            }
            3 => {
                let u = near(s, a);
                let (eb, b) = expr(s, u, 1);
                // of the same instant either may be given
                if a.instant() == b.instant() {
                    return it("pick", "1".into(), Exp::Val(V::i(1)), false);
                }
                let hi = s.bool();
                let want = if (a.instant() > b.instant()) == hi { a } else { b };
                let e = match s.below(2) {
                    0 => call(s, if hi { "max" } else { "min" }, &[ea, eb]),
                    _ => format!("([{ea}, {eb}, {ea}] {})", if hi { "max-of" } else { "min-of" }),
                };
                it("pick", e, Exp::Val(want.v()), true)
            }
            _ => {
                let mut ts: Vec<(String, T)> = vec![];
                for _ in 0..s.len(9) {
                    let base = if ts.is_empty() || s.pct(30) { any_time(s, false) } else { let k = s.n(ts.len()); near(s, ts[k].1) };
                    ts.push(expr(s, base, 0));
                }
                let list = format!("[{}]", ts.iter().map(|(e, _)| e.clone()).collect::<Vec<_>>().join(", "));
                let nt = ts.len() > 1;
                let mut sorted: Vec<T> = ts.iter().map(|(_, t)| *t).collect();
                sorted.sort_by_key(|t| t.instant());
                match s.below(3) {
                    0 => {
                        let want = sorted.iter().map(|t| t.v());
                        it("sort", call(s, "sort-zdts", &[list]), Exp::Val(V::list(want)), nt)
                    }
                    1 => {
                        let want = sorted.iter().map(|t| t.v());
                        it("sort", format!("({list} qsort(<))"), Exp::Val(V::list(want)), nt)
                    }
                    _ => {
                        let n = ts.iter().filter(|(_, t)| t.instant() < a.instant()).count();
                        it("filter", format!("({list} filter(< {ea}) count)"), Exp::Val(V::i(n as i64)), nt)
                    }
                }
            }
        }
    });
    run_items(ctx, PREFIX, &xs, &Opts::default())
}

/// What is not a time is reported.
fn refusals(s: &mut Src, ctx: &mut Ctx) -> Res {
    let xs = items(s, 6, 6, |s| {
        let t = any_time(s, false);
        let (y, m, d) = t.ymd();
        let (h, mi, sec) = t.hms();
        let bad = |e: String| it("refused", e, Exp::Err(&[]), true);
        match s.below(7) {
            0 | 1 => {
                // one component out of range
                let mut c = [y, m, d, h, mi, sec].map(|x| lit_int(x as i128));
                let mut z = offset(t.off, s.bool());
                match s.below(9) {
                    0 => c[1] = s.pick(&["0", "13", "(0 - 1)", "1.5", "4294967297"]).to_string(),
                    1 => c[2] = (month_len(y, m) + s.range(1, 3)).to_string(),
                    2 => c[2] = s.pick(&["0", "(0 - 1)", "4294967297", "2.5"]).to_string(),
                    3 => c[3] = s.pick(&["24", "(0 - 1)", "4294967296", "0.5"]).to_string(),
                    4 => c[4] = s.pick(&["60", "(0 - 1)", "4294967297"]).to_string(),
                    5 => c[5] = s.pick(&["60", "61", "(0 - 1)", "61.0", "(0 - 0.5)"]).to_string(),
                    6 => c[0] = s.pick(&["1000000", "(0 - 1000000)", "4294969320", "2020.5"]).to_string(),
                    7 => {
                        z = s.pick(&["+24:00", "+2400", "Nowhere", "Europe/Lundon", "1", "+", "++01:00", "+01:60"]).to_string()
                    }
                    _ => {
                        let k = s.n(6);
                        c[k] = format!("{:?}", c[k]);
                    }
                }
                bad(format!("cal.zdt({}, {})", c.join(", "), lit_str(&z)))
            }
            2 | 3 => {
                let x = match s.below(8) {
                    0 => format!("{y:04}-{:02}-{d:02}", s.pick(&[0, 13, 99])),
                    1 => format!("{y:04}-{m:02}-{:02}", month_len(y, m) + s.range(1, 3)),
                    2 => format!("{y:04}-{m:02}-00"),
                    3 => format!("{}T24:00:01Z", t.date("-")),
                    4 => format!("{}T12:60:00Z", t.date("-")),
                    5 => format!("{}T12:30:99+00:00", t.date("-")),
                    6 => format!("{}T12:30:00+25:00", t.date("-")),
                    _ => {
                        // cut short
                        let x = T { nanos: 0, ..t }.iso();
                        let k = *s.pick(&[1, 4, 5, 7, 8, 11, 12, 13, 14, 17, 20, 21]);
                        x[..k].to_string()
                    }
                };
                match s.below(2) {
                    0 => bad(format!("cal.parse({})", lit_str(&x))),
                    _ => bad(format!("t\"{x}\"")),
                }
            }
            4 => {
                let e = s.pick(&["1.5", "(0 - 0.25)", "9999999999999999", "(0 - 9999999999999999)", "9223372036854775807", "\"0\""]);
                bad(format!("cal.ifields({e})"))
            }
            5 => {
                let (e, _) = expr(s, t, 1);
                match s.below(4) {
                    0 => bad(format!("({e} + 1)")),
                    1 => bad(format!("({e} < 1)")),
                    2 => bad(format!("(\"a\" < {e})")),
                    _ => bad(format!("cal.parse({e})")),
                }
            }
            _ => {
                // a time which clocks going forward skip
                let z = *s.pick(&ZONES[..5]);
                let y = s.range(2008, 2036);
                let mut skipped = vec![];
                for m in [3, 10] {
                    for d in 1..=month_len(y, m) {
                        for q in 0..8 {
                            let local = days_from_civil(y, m, d) * 86400 + q * 1800;
                            if resolve(z, local).is_none() {
                                skipped.push(local + s.range(0, 1799));
                            }
                        }
                    }
                }
                let t = T { local: *s.pick(&skipped), nanos: 0, off: 0 };
                let (y, m, d) = t.ymd();
                let (h, mi, sec) = t.hms();
                bad(format!("cal.zdt({y}, {m}, {d}, {h}, {mi}, {sec}, {})", lit_str(z)))
            }
        }
    });
    run_items(ctx, PREFIX, &xs, &Opts::default())
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        facets: vec![
            Facet { name: "values", rule: "times written as literals, parsed, made from components or epoch seconds, in numeric and named zones, and put through their text and fields, against a calendar of our own; non-trivial: not the epoch", quick: 700, thorough: 20000, run: values },
            Facet { name: "order", rule: "comparisons, extrema and sorts of related times in different zones; non-trivial: two instants that differ, or more than one to sort", quick: 500, thorough: 15000, run: order },
            Facet { name: "refusals", rule: "components, texts, zones and epochs that are no time; non-trivial: all", quick: 250, thorough: 8000, run: refusals },
        ],
        known: vec![],
        assumptions: vec!["named zones follow the rules in force since 2008"],
    }
}
