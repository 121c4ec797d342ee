mod pos;
mod snippet;
mod text;
use vkit::prop::*;
use vkit::stage::*;

fn main() {
    let o = Opts::parse();
    install_panic_hook();
    let mut out = vec![];
    match o.get("prop").unwrap_or("C12") {
        "C12" => pos::run(&o, &mut out),
        "C13" => snippet::run(&o, &mut out),
        x => panic!("no property {x}"),
    }
    o.write(&out);
}
