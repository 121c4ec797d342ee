//! Parts of the runtime library that are used without the generator.
#![recursion_limit = "256"]
mod direct;
mod tracker;
use vkit::prop::*;
use vkit::stage::*;

fn main() {
    let o = Opts::parse();
    install_panic_hook();
    let mut out = vec![];
    match o.get("prop").unwrap_or("C22") {
        "C06" => tracker::run(&o, &mut out),
        "C22" => direct::run(&o, &mut out),
        x => panic!("no property {x}"),
    }
    o.write(&out);
}
