mod checks;
mod dc;
mod fw;
mod greg;
mod hol;
mod sched;
use checks::*;
use fw::*;

fn table() -> Vec<(&'static str, fn(&Ctx))> {
    vec![("C01", dates::c01), ("C02", dates::c02), ("C03", dates::c03), ("C04", periods::c04), ("C05", periods::c05),
        ("C06", calendars::c06), ("C07", calendars::c07), ("C08", calendars::c08), ("C09", calendars::c09), ("C10", calendars::c10), ("C11", imms::c11),
        ("C12", schedules::c12), ("C13", schedules::c13), ("C14", schedules::c14), ("C15", schedules::c15),
        ("C16", daycounts::c16), ("C17", daycounts::c17), ("C18", daycounts::c18), ("C19", daycounts::c19),
        ("C20", rates::c20), ("C21", rates::c21),
        ("C22", legs::c22), ("C23", legs::c23), ("C24", legs::c24), ("C33", legs::c33),
        ("C25", bonds::c25), ("C28", maths::c28), ("C29", maths::c29), ("C30", maths::c30), ("C31", maths::c31), ("C32", maths::c32), ("C34", maths::c34), ("C26", bonds::c26), ("C27", bonds::c27),
        ("C35", misc::c35), ("C36", misc::c36), ("C37", misc::c37), ("C38", misc::c38), ("C39", wholes::c39), ("C40", wholes::c40),
        ("C41", crossing::c41), ("C42", crossing::c42), ("C43", crossing::c43), ("C44", refusals::c44), ("C45", together::c45), ("C46", changes::c46)]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("answer") {
        // one question of C40, asked in a process of its own
        std::panic::set_hook(Box::new(|_| {}));
        return wholes::answer(a[2].parse().unwrap());
    }
    let (id, tier, replay) = if a.get(1).map(|s| s.as_str()) == Some("replay") {
        let t = std::fs::read_to_string(&a[2]).expect("replay file");
        let f = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|s| s.to_string())).unwrap_or_default();
        (f("property"), f("tier"), Some(f("key")))
    } else {
        (a[1].clone(), a.get(2).cloned().unwrap_or("quick".into()), None)
    };
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let Some((_, run)) = table().into_iter().find(|(n, _)| *n == id) else {
        eprintln!("unknown property {}", id);
        std::process::exit(2);
    };
    std::process::exit(main_run(Ctx::new(&id, tier, replay), run));
}
