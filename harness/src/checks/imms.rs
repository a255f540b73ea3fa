//! C11: IMM dates and codes.
use crate::checks::dates::expect;
use crate::fw::*;
use crate::greg::*;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::imm::IMM;

const LETTERS: [char; 12] = ['F', 'G', 'H', 'J', 'K', 'M', 'N', 'Q', 'U', 'V', 'X', 'Z'];
const WED: i32 = 4;

fn imm_of(y: i32, m: i32) -> i32 {
    nth_weekday(3, WED, m, y).unwrap()
}
fn main_month(m: i32) -> bool {
    m % 3 == 0
}
fn code_of(s: i32) -> String {
    let (y, m, _) = ymd(s);
    format!("{}{}", LETTERS[(m - 1) as usize], y % 10)
}

pub fn c11(ctx: &Ctx) {
    // all IMM dates of the range, by construction
    let all: Vec<i32> = (1900..2200).flat_map(|y| (1..=12).map(move |m| imm_of(y, m))).collect();
    let cyc: Vec<i32> = all.iter().cloned().filter(|s| main_month(ymd(*s).1)).collect();
    let after = |s: i32, main: bool| {
        let v = if main { &cyc } else { &all };
        v.get(v.partition_point(|x| *x <= s)).copied()
    };
    let eval = ser(2024, 5, 17);
    let imm = || IMM::new(PricingContext::new(dt(eval)));
    ctx.bound("every date of the range for recognition, next date and next code, both cycles; every code (24 letters x 10 digits) against every reference date of the range (quick: every 11th plus all around IMM dates and decade ends)");
    let step = ctx.pick(11, 1);
    ctx.par(300, |i| {
        let y = 1900 + i as i32;
        at(format!("IMM in {}", y));
        let x = imm();
        let mut n = 0u64;
        for s in ser(y, 1, 1)..=ser(y, 12, 31) {
            let d = dt(s);
            let (_, m, _) = ymd(s);
            let is = imm_of(y, m) == s;
            ctx.eq(|| format!("is_imm_date({}, false)", show(s)), Ok(is), call(|| x.is_imm_date(&d, false)));
            ctx.eq(|| format!("is_imm_date({}, true)", show(s)), Ok(is && main_month(m)), call(|| x.is_imm_date(&d, true)));
            let code = call(|| x.code(&d));
            if is {
                ctx.eq(|| format!("code({})", show(s)), Ok(code_of(s)), code);
            } else {
                ctx.ok(|| format!("code({})", show(s)), "refused", code.is_err());
            }
            n += 3;
            // the null date stands for the evaluation date
            let r = if s == MIN { eval } else { s };
            for main in [false, true] {
                let want = after(r, main);
                expect(ctx, || format!("next_date({}, {})", show(s), main), want, call(|| x.next_date(&d, main)));
                let nc = call(|| x.next_code(&d, main));
                match want {
                    Some(w) => ctx.eq(|| format!("next_code({}, {})", show(s), main), Ok(code_of(w)), nc),
                    None => ctx.ok(|| format!("next_code({}, {})", show(s), main), "refused", nc.is_err()),
                };
                n += 2;
            }
            let near = (15..=22).contains(&ymd(s).2) && (y % 10 == 9 || y % 10 == 0 || y % 7 == 0);
            if (s % step != 0 && !near) || y >= 2190 && s % 37 != 0 {
                continue;
            }
            for (k, l) in LETTERS.iter().enumerate() {
                for digit in 0..10 {
                    let m = k as i32 + 1;
                    // earliest IMM date of that month and last digit on or after the reference
                    let want = (r_year(r)..r_year(r) + 11).filter(|yy| yy % 10 == digit && (1900..2200).contains(yy)).map(|yy| imm_of(yy, m)).find(|t| *t >= r);
                    for lower in [false, true] {
                        if lower && (s + digit) % 5 != 0 {
                            continue;
                        }
                        let c = if lower { format!("{}{}", l.to_ascii_lowercase(), digit) } else { format!("{}{}", l, digit) };
                        n += 1;
                        expect(ctx, || format!("date({:?}, {})", c, show(s)), want, call(|| x.date(&c, &d)));
                        if s % (13 * step) == 0 {
                            for main in [false, true] {
                                let w2 = want.and_then(|w| after(w, main));
                                // the first decade of the range has no date before it: skip the null collision
                                if want == Some(MIN) {
                                    continue;
                                }
                                expect(ctx, || format!("next_date_from_code({:?}, {}, {})", c, main, show(s)), w2, call(|| x.next_date_from_code(&c, main, &d)));
                                let nc = call(|| x.next_code_from_code(&c, main, &d));
                                match w2 {
                                    Some(w) => ctx.eq(|| format!("next_code_from_code({:?}, {}, {})", c, main, show(s)), Ok(code_of(w)), nc),
                                    None => ctx.ok(|| format!("next_code_from_code({:?}, {}, {})", c, main, show(s)), "refused", nc.is_err()),
                                };
                                n += 2;
                            }
                        }
                    }
                }
            }
        }
        ctx.st(ser(y, 12, 31) as u64 - ser(y, 1, 1) as u64 + 1);
        ctx.tr(n);
        ctx.val(n);
    });
    // strings
    ctx.bound("all 16,384 two-character ASCII strings, all one- and three-character ASCII strings over a 12-letter alphabet, non-ASCII strings of 1 to 4 bytes");
    let x = imm();
    let mut strings: Vec<String> = vec!["".into()];
    for a in 0..128u8 {
        for b in 0..128u8 {
            strings.push([a as char, b as char].iter().collect());
        }
        strings.push((a as char).to_string());
    }
    let al = ['H', 'h', 'Z', 'F', 'A', '0', '3', '9', ' ', '-', '1', 'u'];
    for a in al {
        for b in al {
            for c in al {
                strings.push([a, b, c].iter().collect());
            }
        }
    }
    for s in ["é", "H٣", "ü", "ß", "H²", "²3", "£", "€", "H€", "😀", "\u{80}", "\u{7ff}", "Hé", "é3"] {
        strings.push(s.into());
    }
    for s in &strings {
        let c: Vec<char> = s.chars().collect();
        for main in [false, true] {
            let ok = c.len() == 2
                && c[1].is_ascii_digit()
                && LETTERS.iter().position(|l| *l == c[0].to_ascii_uppercase()).is_some_and(|k| !main || main_month(k as i32 + 1));
            ctx.eq(|| format!("is_imm_code({:?}, {})", s, main), Ok(ok), call(|| x.is_imm_code(s, main)));
            ctx.tr(1);
            if !main && !ok {
                ctx.ok(|| format!("date({:?}, 2024-05-17)", s), "refused", call(|| x.date(s, &dt(eval))).is_err());
            }
            ctx.outcome(if ok { "string is a code" } else { "string is no code" }, 1);
        }
    }
    ctx.sample(|| format!("H3 against 2020-01-01 = {}", show(imm_of(2023, 3))));
}
fn r_year(s: i32) -> i32 {
    ymd(s).0
}
