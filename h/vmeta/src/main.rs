mod conv;
mod fuzz;
mod imports;
mod literals;
mod replace;
mod syntax;
use vkit::prop::*;
use vkit::stage::*;

fn main() {
    let o = Opts::parse();
    install_panic_hook();
    let mut out = vec![];
    match o.get("prop").unwrap_or("C09") {
        "C07" => replace::run(&o, &mut out),
        "C09" => syntax::run(&o, &mut out),
        "C10" => literals::run(&o, &mut out),
        "C11" => fuzz::run(&o, &mut out),
        "C19" => imports::run(&o, &mut out),
        x => panic!("no property {x}"),
    }
    o.write(&out);
}
