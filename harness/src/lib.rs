pub mod core_work;
pub mod explore;
pub mod faults;
pub mod gen;
pub mod geom;
pub mod huge;
pub mod lists;
pub mod numeric;
pub mod oracle;
pub mod record;
pub mod rng;
pub mod unruly;

use std::collections::HashMap;

pub struct Args(HashMap<String, String>);

impl Args {
    pub fn get(&self, k: &str, default: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| default.to_string())
    }

    pub fn num(&self, k: &str, default: u64) -> u64 {
        self.0.get(k).map_or(default, |s| s.parse().unwrap_or_else(|_| panic!("--{k} {s}")))
    }
}

/// Runs one of the commands: `command --option value ...`
pub fn main(commands: &[(&str, fn(&Args))]) {
    let mut args = std::env::args().skip(1);
    let command = args.next().unwrap_or_default();
    let mut map = HashMap::new();
    while let Some(k) = args.next() {
        let k = k.trim_start_matches("--").to_string();
        let v = args.next().unwrap_or_default();
        map.insert(k, v);
    }
    std::panic::set_hook(Box::new(|_| ()));
    match commands.iter().find(|(name, _)| *name == command) {
        Some((_, f)) => f(&Args(map)),
        None => {
            eprintln!("commands: {:?}", commands.iter().map(|c| c.0).collect::<Vec<_>>());
            std::process::exit(2);
        }
    }
}
