//! Decides the properties of hml-rs by exhaustive exploration
mod conv;
mod drive;
mod engine;
mod err;
mod esc;
mod hist;
mod judges;
mod model;
mod names;
mod props;
mod spaces;
mod stream;
mod tree;
mod types;
mod xml;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = std::env::var("HMLMC_ROOT").unwrap_or_else(|_| "/verif".into());
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a[..] {
        ["check", prop] => engine::check(&root, prop, &[], props::spaces),
        ["replay", file] => engine::replay(&root, file, props::spaces),
        ["child", ..] => engine::child(&args[1..], props::spaces),
        ["one", ..] => engine::one(&args[1..], props::spaces),
        ["read", mode, text] => {
            let opts = if mode == "xmlns" {
                types::XMLNS
            } else {
                types::PLAIN
            };
            let text = text.replace("\\n", "\n");
            println!("model\n{}", model::read(&text, opts).trace.show());
            println!("implementation\n{}", drive::read::<drive::LC>(&text, opts, 2).show());
            0
        }
        ["families", n] => {
            for f in spaces::all_families() {
                let text = (f.make)(n.parse::<usize>().unwrap().min(f.max));
                let t = std::time::Instant::now();
                model::read(&text, types::XMLNS);
                let m = t.elapsed().as_secs_f64();
                drive::read::<drive::LC>(&text, types::XMLNS, 0);
                let r = t.elapsed().as_secs_f64() - m;
                println!("{:36} {:9} {m:7.3} {r:7.3}", f.name, text.len());
            }
            0
        }
        _ => {
            eprintln!("usage: hmlmc check PROPERTY | replay FILE | read plain|xmlns TEXT");
            2
        }
    };
    std::process::exit(code);
}
