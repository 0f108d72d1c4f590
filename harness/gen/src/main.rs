//! Runs the real parser, `mount` and code generator over the corpus.
//!
//! Lines on stdin: `file NAME PATH` or `mount NAME OUTER INNER AT`; NAME.rs is written to the
//! directory given as the first argument, or NAME.err says why there is none.
use std::collections::HashMap;
use std::io::BufRead;
use wayfinder::RouteConfig;

fn load(path: &str) -> Result<RouteConfig, String> {
    let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    wayfinder::parse::route_config(&text).map(|c| c.1).map_err(|e| format!("the route file is refused: {:?}", e))
}

fn main() {
    let dir = std::env::args().nth(1).expect("directory");
    std::panic::set_hook(Box::new(|_| {}));
    let mut all: HashMap<String, RouteConfig> = HashMap::new();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        let name = w[1].to_string();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let c = match w[0] {
                "file" => load(w[2])?,
                "mount" => {
                    let o = all.get(w[2]).ok_or("no outer config")?.clone();
                    // "-": a config that declares nothing
                    let i = if w[3] == "-" { RouteConfig::default() } else { all.get(w[3]).ok_or("no inner config")?.clone() };
                    o.mount(w[4], i)
                }
                _ => panic!("bad line"),
            };
            let mut out = Vec::new();
            wayfinder::gen::codegen(&mut out, &c).map_err(|e| format!("generation failed: {}", e))?;
            Ok::<_, String>((c, out))
        }));
        let err = match r {
            Ok(Ok((c, out))) => {
                std::fs::write(format!("{}/{}.rs", dir, name), out).unwrap();
                all.insert(name, c);
                continue;
            }
            Ok(Err(e)) => e,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("generation panicked: {}", m)
            }
        };
        std::fs::write(format!("{}/{}.err", dir, name), err).unwrap();
    }
}
