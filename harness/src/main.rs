mod bulk;
mod c02;
mod conc;

mod config;
mod data;
mod distro;
mod faulty;
mod fsfault;
mod inline;
mod metrics;
mod persist;
mod plugs;
mod run;
mod sched;
mod shape;
mod tracker;
mod treechecks;
mod trees;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let thorough = a.get(2).map(|s| s == "thorough").unwrap_or(false);
    let only = a.iter().position(|s| s == "--case").map(|i| a[i + 1].clone());
    let run = run::Run::new(&prop, thorough, only);
    match &prop[..] {
        "C02" => c02::c02(run),
        "C03" => treechecks::c03(run),
        "C04" => treechecks::c04(run),
        "C01" => {
            conc::c01_long_reads(run);
            conc::c01_tree(run);
            conc::c01_loom(run)
        }
        "C05" => conc::c05(run),
        "C06" => treechecks::c06_c07(run, false),
        "C07" => treechecks::c06_c07(run, true),
        "C08" => treechecks::c08(run),
        "C23" => shape::c23(run),
        "C09" => bulk::c09(run),
        "C10" => persist::c10(run),
        "C11" => persist::c11(run),
        "C12" => bulk::c12(run),
        "C13" => plugs::c13(run),
        "C14" => plugs::c14(run),
        "C15" => distro::c15(run),
        "C16" => tracker::c16(run),
        "C17" => metrics::c17(run),
        "C18" => data::c18(run),
        "C19" => data::c19(run),
        "C20" => config::c20(run),
        _ => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2)
        }
    }
    std::process::exit(run.finish())
}
