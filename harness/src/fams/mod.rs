//! The enumerated families, by property.

mod c01;
mod c02;
mod c05;
mod c10;
mod c13;
pub mod c17;
mod c20;
mod c21;
mod c26;
mod c31;
mod c32;
mod cross;
mod whole;

use crate::explore::{Ch, Cx, Fam};

pub fn f(name: &'static str, bound: u32, run: fn(&mut Ch, &mut Cx)) -> Fam {
    Fam { name, bound, run }
}

pub fn families(prop: &str) -> Vec<Fam> {
    let mut v = own(prop);
    v.extend(cross::of(prop));
    v.extend(whole::of(prop));
    v
}

/// What must happen while there is one thread yet: processes forked later, while other threads
/// run, would wait for ever for what one of those was about to initialize.
pub fn prepare(prop: &str) {
    crate::refdec::prepare();
    if prop == "C20" {
        std::thread::Builder::new().stack_size(crate::STACK).spawn(c20::prepare).unwrap().join().unwrap();
    }
}

fn own(prop: &str) -> Vec<Fam> {
    match prop {
        "C01" => c01::c01(),
        "C02" => c02::c02(),
        "C03" => c02::c03(),
        "C04" => c02::c04(),
        "C05" => c05::c05(),
        "C06" => c05::c06(),
        "C07" => c05::c07(),
        "C08" => c05::c08(),
        "C09" => c05::c09(),
        "C10" => c10::c10(),
        "C11" => c10::c11(),
        "C12" => c10::c12(),
        "C13" => c13::c13(),
        "C14" => c13::c14(),
        "C15" => c01::c15(),
        "C16" => c13::c16(),
        "C17" => c17::c17(),
        "C18" => c17::c18(),
        "C19" => c17::c19(),
        "C20" => c20::c20(),
        "C21" => c21::c21(),
        "C22" => c21::c22(),
        "C23" => c21::c23(),
        "C24" => c21::c24(),
        "C25" => c21::c25(),
        "C26" => c26::c26(),
        "C27" => c26::c27(),
        "C28" => c26::c28(),
        "C29" => c26::c29(),
        "C30" => c26::c30(),
        "C31" => c31::c31(),
        "C32" => c32::c32(),
        _ => vec![],
    }
}

pub const I32S: [i32; 24] = [
    0, 1, -1, 2, 3, 4, 5, 8, 16, 127, 128, 255, 256, 1024, 9999, 10_000, 10_001, 25_000, 25_001,
    65_536, i32::MAX, i32::MIN, -2, -10_001,
];

pub fn corpus_paths() -> &'static Vec<std::path::PathBuf> {
    static C: std::sync::OnceLock<Vec<std::path::PathBuf>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v = vec![];
        for dir in ["bad", "good"] {
            let Ok(d) = std::fs::read_dir(format!("/repo/assets/replays/{dir}")) else { continue };
            let mut names: Vec<_> = d.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            names.sort();
            v.extend(names.into_iter().filter(|p| p.extension().is_some_and(|x| x == "replay")));
        }
        v
    })
}

pub fn corpus() -> &'static Vec<(String, Vec<u8>)> {
    static C: std::sync::OnceLock<Vec<(String, Vec<u8>)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let read = |p: &std::path::PathBuf| (p.file_name().unwrap().to_string_lossy().into_owned(), std::fs::read(p).unwrap());
        corpus_paths().iter().map(read).collect()
    })
}
