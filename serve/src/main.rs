#[path = "../../harness/src/inline.rs"]
mod inline;
#[path = "../../harness/src/run.rs"]
#[allow(dead_code)]
mod run;
#[path = "../../harness/src/trees.rs"]
#[allow(dead_code)]
mod trees;

mod answers;
mod server;
mod sessions;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let thorough = a.get(2).map(|s| s == "thorough").unwrap_or(false);
    let only = a.iter().position(|s| s == "--case").map(|i| a[i + 1].clone());
    let run = run::Run::new(&prop, thorough, only);
    match &prop[..] {
        "C21" => sessions::c21(run),
        "C22" => answers::c22(run),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2)
        }
    }
    std::process::exit(run.finish())
}
