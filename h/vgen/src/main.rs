mod derive;
mod enumeration;
mod faults;
mod given;
mod included;
mod same;
use vkit::prop::*;
use vkit::stage::*;

fn main() {
    let o = Opts::parse();
    install_panic_hook();
    let p = o.get("prop").unwrap_or("C21");
    let child = derive::scratch(p);
    let mut out = vec![];
    match p {
        "C16" => same::run(&o, &mut out, child),
        "C19" => included::run(&o, &mut out),
        "C20" => enumeration::run(&o, &mut out),
        "C21" => faults::run(&o, &mut out),
        x => panic!("no property {x}"),
    }
    if !child {
        derive::clean();
    }
    o.write(&out);
}
